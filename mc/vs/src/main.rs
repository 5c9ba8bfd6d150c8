//! C24: texts, positions and edits survive the way from the editor to the
//! native module and back.
//!
//! The TypeScript sources of both plugins and the sources of their native
//! modules run as they are, in node and in this process; the editor is a
//! stand-in (js/host.js), and so is neon.  All histories of editor events
//! within the bounds are executed, and all answers compared with answers
//! computed from a fresh parse of the text the editor has.

use std::sync::Arc;

use mccore::util::{fnv, n_strings, nth_string, Radix};
use mccore::{guarded, parse_opts, run_check, Ctx, Family, Notes, Tier};
use notify::sim::World;
use serde_json::{json, Value as Json};

mod host;
mod model;

use host::{Bundles, Plugin};
use model::{changed, pos, sorted, stops, unit, utf16_len, Editor, Expect, Fresh};

/// Runs the script, and compares all answers with those of the model.
fn execute(bundles: &Bundles, plugin: Plugin, folders: &Json, ops: &[Json], calls: &mut u64) -> Result<u64, String> {
    let (answers, n) = host::run(bundles, plugin, folders.clone(), ops);
    *calls += n;
    let mut editor = Editor::new(plugin);
    let mut h = 0;
    for (i, (op, answer)) in ops.iter().zip(&answers).enumerate() {
        let expected = editor.step(op);
        let describe = |what: String| {
            let history: Vec<String> = ops[..i]
                .iter()
                .enumerate()
                .filter(|(k, it)| is_event(it) && (it["op"] != "select" && it["op"] != "command" || k + 2 >= i))
                .map(|(_, it)| it.to_string())
                .collect();
            format!("{} after {}: {}", op, history.join(" "), what)
        };
        if let Some(e) = answer.get("error") {
            return Err(describe(format!("failed: {} ({})", e, answer["stack"].to_string().chars().take(300).collect::<String>())));
        }
        let got = &answer["ok"];
        h = fnv(format!("{}{}", h, got).as_bytes());
        match expected {
            Expect::Done => (),
            Expect::Among(es) => {
                for e in es {
                    if !got.as_array().unwrap().contains(&e) {
                        return Err(describe(format!("shows {}, expected {}", got, e)));
                    }
                }
            }
            Expect::Same(e) => {
                if sorted(got) != sorted(&e) {
                    return Err(describe(format!("answers {}, expected {}", sorted(got), sorted(&e))));
                }
            }
            Expect::Is(e) if op["op"] == "shown" => {
                if e.is_null() {
                    continue;
                }
                let path = op["path"].as_str().or(editor.active.as_ref().map(|it| it.as_str())).unwrap();
                let lists = |v: &Json| -> Json {
                    let lists: Vec<Json> = v["decorations"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .filter(|it| !it.as_array().unwrap().is_empty())
                        .map(sorted)
                        .collect();
                    sorted(&json!(lists))
                };
                if lists(got) != lists(&e) {
                    return Err(describe(format!("highlights {}, expected {}", lists(got), lists(&e))));
                }
                if let Some(ds) = e.get("diagnostics") {
                    let got = got["diagnostics"].get(format!("file://{}", path)).cloned().unwrap_or(json!([]));
                    if sorted(&got) != sorted(ds) {
                        return Err(describe(format!("diagnostics {}, expected {}", got, ds)));
                    }
                }
            }
            Expect::Is(e) => {
                if *got != e {
                    return Err(describe(format!("answers {}, expected {}", got, e)));
                }
            }
        }
    }
    Ok(h)
}

fn scratch() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = std::path::PathBuf::from(format!("{}/mcvs-{}-{}", base, std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

fn is_event(op: &Json) -> bool {
    match op["op"].as_str().unwrap() {
        "present" | "start" | "open" | "close" | "activate" | "change" | "save" | "select" | "command" | "runAction"
        | "applyAction" | "applyFormat" | "applyOnType" => true,
        _ => false,
    }
}

fn path(plugin: Plugin, n: usize) -> String {
    match n {
        2 => "/w/c.txt".to_string(),
        n => format!("/w/{}.{}", ["a", "b"][n], plugin.ext()),
    }
}

fn language(plugin: Plugin) -> &'static str {
    plugin.name()
}

fn open(plugin: Plugin, n: usize, text: &str) -> Json {
    json!({ "op": "open", "path": path(plugin, n), "language": language(plugin), "text": text })
}

fn activate(plugin: Plugin, n: usize) -> Json {
    json!({ "op": "activate", "path": path(plugin, n) })
}

/// All questions at all positions and (short or long) ranges of the active
/// document `n`, whose text is `text`; those which change it are not here.
fn questions(plugin: Plugin, n: usize, text: &str, active: bool, out: &mut Vec<Json>) {
    let p = path(plugin, n);
    out.push(json!({ "op": "text", "path": p }));
    if active {
        out.push(json!({ "op": "shown" }));
        out.push(json!({ "op": "content", "uri": format!("fall-{}://syntaxtree", plugin.ext()) }));
    }
    out.push(json!({ "op": "symbols", "path": p }));
    let stops = stops(text);
    let places: Vec<Json> = stops.iter().map(|&i| pos(text, i)).collect();
    for (i, at) in places.iter().enumerate() {
        match plugin {
            Plugin::Fall => {
                out.push(json!({ "op": "definition", "path": p, "at": at }));
                out.push(json!({ "op": "references", "path": p, "at": at }));
            }
            Plugin::Rust => out.push(json!({ "op": "onType", "path": p, "at": at, "ch": " " })),
        }
        for to in [i, i + 1, places.len() - 1].iter() {
            if *to < i || *to >= places.len() || (*to == i + 1 && i + 1 == places.len() - 1) {
                continue;
            }
            let r = json!([at, places[*to]]);
            out.push(json!({ "op": "actions", "path": p, "range": r }));
            if active {
                out.push(json!({ "op": "select", "selections": [r, [places[0], at]] }));
                out.push(json!({ "op": "command", "name": format!("fall-{}.semanticSelection", plugin.name()) }));
                out.push(json!({ "op": "selections" }));
            }
        }
    }
}

/// A few of the questions, to be asked between events.
fn few_questions(plugin: Plugin, n: usize, text: &str, active: bool, out: &mut Vec<Json>) {
    let p = path(plugin, n);
    out.push(json!({ "op": "text", "path": p }));
    if active {
        out.push(json!({ "op": "shown" }));
        out.push(json!({ "op": "content", "uri": format!("fall-{}://syntaxtree", plugin.ext()) }));
    }
    out.push(json!({ "op": "symbols", "path": p }));
    let stops = stops(text);
    for i in [stops.len() / 3, stops.len() * 2 / 3, stops.len() - 1].iter() {
        let at = pos(text, stops[*i]);
        match plugin {
            Plugin::Fall => {
                out.push(json!({ "op": "definition", "path": p, "at": at }));
                out.push(json!({ "op": "references", "path": p, "at": at }));
            }
            Plugin::Rust => out.push(json!({ "op": "onType", "path": p, "at": at, "ch": " " })),
        }
        out.push(json!({ "op": "actions", "path": p, "range": [at, at] }));
    }
}

/// The questions at places given in percent of the text.
fn questions_at(plugin: Plugin, n: usize, text: &str, active: bool, percents: &[usize], out: &mut Vec<Json>) {
    few_questions(plugin, n, text, active, out);
    let p = path(plugin, n);
    let stops = stops(text);
    for percent in percents {
        let i = (stops.len() - 1) * percent / 100;
        let at = pos(text, stops[i]);
        match plugin {
            Plugin::Fall => {
                out.push(json!({ "op": "definition", "path": p, "at": at }));
                out.push(json!({ "op": "references", "path": p, "at": at }));
            }
            Plugin::Rust => out.push(json!({ "op": "onType", "path": p, "at": at, "ch": " " })),
        }
        let r = json!([at, pos(text, stops[(i + 5).min(stops.len() - 1)])]);
        out.push(json!({ "op": "actions", "path": p, "range": r }));
        if active {
            out.push(json!({ "op": "select", "selections": [r, [at, at]] }));
            out.push(json!({ "op": "command", "name": format!("fall-{}.semanticSelection", plugin.name()) }));
            out.push(json!({ "op": "selections" }));
        }
    }
}

fn pieces(plugin: Plugin) -> &'static [&'static str] {
    match plugin {
        Plugin::Fall => &[
            "rule a { b '😀' }\n",
            "pub rule b { a | 'é' c }\n",
            "//é😀\n",
            "tokenizer { c r\"ж\" }\n",
            "test r\"\nж1\n\"\n",
            "rule é",
            "\n",
        ],
        Plugin::Rust => &[
            "struct S { x: é }\n",
            "fn f() { g(\"😀\"); let x }\n",
            "//é😀\n",
            "impl S { fn h(&self) { f(1, 2) } }\n",
            "mod m { type Z = u8; }\n",
            "'ж",
            "\n",
        ],
    }
}

fn text_of(plugin: Plugin, pieces_n: usize, len: u32, i: u64) -> String {
    let _ = len;
    nth_string(pieces_n as u64, i).iter().map(|&k| pieces(plugin)[k]).collect()
}

fn with_eol(text: &str, crlf: bool) -> String {
    if crlf { text.replace('\n', "\r\n") } else { text.to_string() }
}

const PLUGINS: [Plugin; 2] = [Plugin::Fall, Plugin::Rust];

struct Check {
    bundles: Arc<Bundles>,
}

impl Check {
    fn run(&self, ctx: &mut Ctx, plugin: Plugin, folders: Json, ops: Vec<Json>) {
        ctx.state();
        let mut calls = 0;
        let key = || {
            let history: Vec<String> = ops
                .iter()
                .filter(|it| is_event(it) && it["op"] != "select" && it["op"] != "command")
                .map(|it| it.to_string())
                .collect();
            let mut s: String = history.join(" ");
            if s.len() > 1500 {
                s = s.chars().take(1500).collect();
            }
            format!("{} {}", plugin.name(), s)
        };
        ctx.transition();
        let events = ops.iter().filter(|it| is_event(it)).count() as u64;
        ctx.count("events", events);
        ctx.count("answers_compared", ops.len() as u64 - events);
        match guarded(|| execute(&self.bundles, plugin, &folders, &ops, &mut calls)) {
            Ok(h) => ctx.outcome(h),
            Err(m) => ctx.fail(key(), m),
        }
        ctx.count("native_calls", calls);
        ctx.sample(|| format!("{}: {}", plugin.name(), ops.iter().take(6).map(|it| it.to_string()).collect::<Vec<_>>().join(" ")));
    }
}

/// An edit given by its replacements, as a list for the editor and back.
fn both_ways(text: &str, edits: &[(usize, usize, &str)]) -> Result<u64, String> {
    use fall_tree::{tu, TextBuf, TextEditBuilder, TextEditOp, TextRange};
    let mut expected = String::new();
    let mut at = 0;
    let buf = TextBuf::from(text);
    let mut builder = TextEditBuilder::new(buf.as_text());
    for &(from, to, ins) in edits {
        expected += &text[at..from];
        expected += ins;
        at = to;
        let range = TextRange::from_to(tu(from as u32), tu(to as u32));
        match (from == to, ins.is_empty()) {
            (true, false) => builder.insert(range.start(), ins.to_string()),
            (false, true) => builder.delete(range),
            _ => builder.replace(range, ins.to_string()),
        }
    }
    expected += &text[at..];
    let mut edit = builder.build();
    // As all edits of the plugins end.
    edit.ops.push(TextEditOp::Copy(TextRange::from_len(tu(text.len() as u32), tu(0))));
    let list = serde_json::to_value(generic_backend::to_vs_edits(edit)).unwrap();
    // The editor applies all of them to the text it has.
    let mut got = String::new();
    let mut at = 0;
    let mut parts: Vec<(usize, usize, &str)> = list
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let place = |k: usize| e["delete"][k].as_u64().unwrap() as usize;
            (place(0), place(1), e["insert"].as_str().unwrap())
        })
        .collect();
    parts.sort_by_key(|it| (it.0, it.1));
    for (from, to, ins) in parts {
        if from < at || to < from || !text.is_char_boundary(from) || !text.is_char_boundary(to) {
            return Err(format!("{} cannot be applied", list));
        }
        got += &text[at..from];
        got += ins;
        at = to;
    }
    got += &text[at..];
    if got != expected {
        return Err(format!("{} gives {:?}, expected {:?}", list, got, expected));
    }
    let back = serde_json::from_value(list.clone()).map_err(|e| e.to_string())?;
    let back = generic_backend::from_vs_edits(buf.as_text(), back).apply(buf.as_text());
    let back = back.as_text().to_string();
    if back != expected {
        return Err(format!("{} is read as an edit which gives {:?}, expected {:?}", list, back, expected));
    }
    Ok(fnv(list.to_string().as_bytes()))
}

/// Replacements which the changes of the explored histories put in.
const INSERTS: [&str; 6] = ["", "x", "é", "😀", "\n", "}"];

fn families(tier: Tier, bundles: &Arc<Bundles>) -> Vec<Family> {
    let mut r = Vec::new();

    // One document, all questions.
    {
        let len = tier.pick(2, 3);
        let c = Check { bundles: bundles.clone() };
        let size = 2 * 2 * n_strings(7, len);
        r.push(Family::new(
            "positions",
            format!("texts of up to {} out of 7 pieces with characters of 1 to 4 bytes, two plugins, two kinds of line breaks, all questions at all places", len),
            size,
            move |i, ctx| {
                let mut d = Radix(i);
                let plugin = PLUGINS[d.take(2)];
                let crlf = d.take(2) == 1;
                let text = with_eol(&text_of(plugin, 7, len, d.0), crlf);
                let mut ops = vec![json!({ "op": "start" }), open(plugin, 0, &text), activate(plugin, 0)];
                questions(plugin, 0, &text, true, &mut ops);
                c.run(ctx, plugin, json!(null), ops);
            },
        ));
    }

    // One change, anywhere.
    {
        let texts: Vec<(Plugin, String)> = {
            let mut v = Vec::new();
            for &(plugin, ref t) in [
                (Plugin::Fall, "rule a{b'😀'}\nrule é{a}"),
                (Plugin::Fall, "//é😀\nrule b{b|'ж'}\n"),
                (Plugin::Rust, "struct é{x:S}\nfn f(){\"😀\"}"),
                (Plugin::Rust, "fn f(){\n//é😀\nlet x\n}\n"),
            ].iter() {
                for crlf in [false, true].iter() {
                    v.push((plugin, with_eol(t, *crlf)));
                }
            }
            v
        };
        let mut cases: Vec<(Plugin, String, usize, usize)> = Vec::new();
        for (p, t) in texts {
            let s = stops(&t);
            for i in 0..s.len() {
                for j in i..s.len().min(i + 1 + tier.pick(6, 100)) {
                    let units = |b: usize| utf16_len(&t[..b]);
                    cases.push((p, t.clone(), units(s[i]), units(s[j])));
                }
            }
        }
        let c = Check { bundles: bundles.clone() };
        let inserts = tier.pick(4, 6);
        r.push(Family::new(
            "changes",
            format!("4 texts with two kinds of line breaks, every change which replaces a range of up to {} characters by one of {} texts, then all answers", tier.pick(6, 100), inserts),
            (cases.len() * inserts) as u64,
            move |i, ctx| {
                let mut d = Radix(i);
                let insert = d.take(inserts);
                let (plugin, text, start, end) = &cases[d.take(cases.len())];
                let crlf = text.contains("\r\n");
                let change = json!([[start, end, with_eol(INSERTS[insert], crlf)]]);
                let new = changed(text, &change);
                if new.replace("\r\n", "").contains('\r') {
                    return;
                }
                let mut ops = vec![
                    json!({ "op": "start" }),
                    open(*plugin, 0, text),
                    activate(*plugin, 0),
                    json!({ "op": "shown" }),
                    json!({ "op": "change", "path": path(*plugin, 0), "changes": change }),
                ];
                questions(*plugin, 0, &new, true, &mut ops);
                c.run(ctx, *plugin, json!(null), ops);
            },
        ));
    }

    // Long documents.
    {
        let c = Check { bundles: bundles.clone() };
        let sizes: Vec<usize> = (3..tier.pick(16, 40)).chain(vec![60, 64, 100, tier.pick(128, 512)]).collect();
        r.push(Family::new(
            "long",
            format!("documents in which one of 6 pieces is repeated {} to {} times, between two others, two plugins, two kinds of line breaks: questions at places all over them", sizes[0], sizes[sizes.len() - 1]),
            (2 * 2 * 6 * sizes.len()) as u64,
            move |i, ctx| {
                let mut d = Radix(i);
                let plugin = PLUGINS[d.take(2)];
                let crlf = d.take(2) == 1;
                let piece = [0, 1, 2, 3, 4, 6][d.take(6)];
                let n = sizes[sizes.len() - 1 - d.take(sizes.len())];
                let all = pieces(plugin);
                let text = with_eol(&format!("{}{}{}", all[1], all[piece].repeat(n), all[0]), crlf);
                let mut ops = vec![json!({ "op": "start" }), open(plugin, 0, &text), activate(plugin, 0)];
                questions_at(plugin, 0, &text, true, &[0, 1, 5, 11, 23, 25, 47, 48, 71, 90, 95, 98, 99, 100], &mut ops);
                let mid = utf16_len(&text[..stops(&text)[stops(&text).len() / 2]]);
                if !crlf {
                    let change = json!([[mid, mid, "é\n"]]);
                    let new = changed(&text, &change);
                    ops.push(json!({ "op": "change", "path": path(plugin, 0), "changes": change }));
                    questions_at(plugin, 0, &new, true, &[0, 33, 49, 50, 51, 66, 100], &mut ops);
                }
                c.run(ctx, plugin, json!(null), ops);
            },
        ));
    }

    // Many changes of one document, one after another and at once.
    {
        let c = Check { bundles: bundles.clone() };
        let orders = 6;
        let most = tier.pick(3, 6);
        r.push(Family::new(
            "typing",
            format!("up to {} pieces typed one character at a time, at the end, at the start, from the middle, and removed again in the same ways; and all characters replaced by as many changes at once; with questions in between", most),
            (2 * 6 * most * orders) as u64,
            move |i, ctx| {
                let mut d = Radix(i);
                let plugin = PLUGINS[d.take(2)];
                let from = d.take(6);
                let order = d.take(orders);
                let n = most - d.take(most);
                let all = pieces(plugin);
                let text: String = (0..n).map(|k| all[(from + k) % 6]).collect();
                let chars: Vec<char> = text.chars().collect();
                let mut now = if order >= 3 { text.clone() } else { String::new() };
                let mut ops = vec![json!({ "op": "start" }), open(plugin, 0, &now), activate(plugin, 0)];
                let p = path(plugin, 0);
                for k in 0..chars.len() {
                    let len = now.chars().count();
                    let unit = |c: usize| now.chars().take(c).map(char::len_utf16).sum::<usize>();
                    let change = match order {
                        0 => json!([[unit(len), unit(len), chars[k].to_string()]]),
                        1 => json!([[0, 0, chars[chars.len() - 1 - k].to_string()]]),
                        2 => json!([[unit(len / 2), unit(len / 2), chars[(chars.len() + if k % 2 == 0 { k } else { chars.len() - 1 - k }) / 2 % chars.len()].to_string()]]),
                        3 => json!([[unit(len - 1), unit(len), ""]]),
                        4 => json!([[0, unit(1), ""]]),
                        _ => {
                            // Every k-th character at once.
                            let places: Vec<usize> = (0..len).filter(|i| i % (k + 1) == k % 3).collect();
                            Json::Array(places.iter().rev().map(|&i| json!([unit(i), unit(i + 1), (["", "é", "xy", "\n"][(i + k) % 4])])).collect())
                        }
                    };
                    now = changed(&now, &change);
                    ops.push(json!({ "op": "change", "path": p, "changes": change }));
                    if k % 7 == 6 || k + 1 == chars.len() || order == 5 {
                        few_questions(plugin, 0, &now, true, &mut ops);
                    }
                    if order == 5 && k == 12 {
                        break;
                    }
                }
                c.run(ctx, plugin, json!(null), ops);
            },
        ));
    }

    // All edits which the plugins offer.
    {
        let len = tier.pick(2, 3);
        let c = Check { bundles: bundles.clone() };
        let size = 2 * n_strings(6, len);
        r.push(Family::new(
            "fall-edits",
            format!("texts of up to {} out of 6 pieces, two kinds of line breaks: every action at every place, and reformatting, applied by the editor, then all answers", len),
            size,
            move |i, ctx| {
                let plugin = Plugin::Fall;
                let mut d = Radix(i);
                let crlf = d.take(2) == 1;
                let bodies = ["rule a {   b '😀'  }\n\n\n", "rule é{b|'é' |c}\n", "tokenizer{\nc r\"ж\"\n}", "//é😀\n", "test r\"\nж1\n\"\n", "pub rule d{ <rep e>}"];
                let text: String = nth_string(6, d.0).iter().map(|&k| bodies[k]).collect();
                let text = with_eol(&text, crlf);
                edits(&c, ctx, plugin, &text);
            },
        ));
        let c = Check { bundles: bundles.clone() };
        let size = 2 * n_strings(6, len);
        r.push(Family::new(
            "rust-edits",
            format!("texts of up to {} out of 6 pieces, two kinds of line breaks: every action and every expansion at every place, applied by the editor, then all answers", len),
            size,
            move |i, ctx| {
                let plugin = Plugin::Rust;
                let mut d = Radix(i);
                let crlf = d.take(2) == 1;
                let bodies = ["struct S<'é, T: Z> { x: T }\n", "fn f(é: u8, b: u8) { g(\"😀\", 1) }\n", "fn g() { é.pd$", "//é😀\n", "impl S {}\n", "{ \"😀\".pd$ }\n}"];
                let text: String = nth_string(6, d.0).iter().map(|&k| bodies[k]).collect();
                let text = with_eol(&text, crlf);
                edits(&c, ctx, plugin, &text);
            },
        ));
    }

    // Edits on their way to the editor and back.
    {
        let max = tier.pick(3, 4);
        let texts = ["aé😀b\n", "", "ж"];
        let inserts = ["", "x", "é😀"];
        let n = 6u64 * 6 * 3;
        let strings = n_strings(n, max);
        r.push(Family::new(
            "edits",
            format!("all edits of up to {} replacements by one of 3 texts, over 3 texts with characters of 1 to 4 bytes: as lists for the editor, and read back", max),
            3 * strings,
            move |i, ctx| {
                let mut d = Radix(i);
                let text = texts[d.take(3) as usize];
                let stops: Vec<usize> = text.char_indices().map(|it| it.0).chain(Some(text.len())).collect();
                let mut edits = Vec::new();
                let mut last = 0;
                for k in nth_string(n, d.0) {
                    let (from, to, ins) = (k % 6, k / 6 % 6, k / 36);
                    if from < last || to < from || to >= stops.len() {
                        return;
                    }
                    last = to;
                    edits.push((stops[from], stops[to], inserts[ins]));
                }
                ctx.state();
                ctx.transition();
                let key = format!("{:?} {:?}", text, edits);
                match guarded(|| both_ways(text, &edits)) {
                    Ok(h) => ctx.outcome(h),
                    Err(m) => ctx.fail(key, m),
                }
                ctx.count("edits", 1);
            },
        ));
    }

    {
        let sizes: Vec<usize> = (4..40).chain(vec![63, 64, 65, 127, 128, 129, 255, 256, 257, tier.pick(511, 2048)]).collect();
        r.push(Family::new(
            "long-edits",
            format!("edits of 4 to {} replacements of 6 kinds in long texts, as lists for the editor, and read back", sizes[sizes.len() - 1]),
            sizes.len() as u64 * 6 * 4,
            move |i, ctx| {
                let mut d = Radix(i);
                let kind = d.take(6);
                let text = ["é😀b\n", "\n", "x\r\n😀", "abcdefgh"][d.take(4)].repeat(sizes[d.take(sizes.len())]);
                let stops: Vec<usize> = text.char_indices().map(|it| it.0).chain(Some(text.len())).collect();
                let mut edits = Vec::new();
                for k in 0..(stops.len() - 1) / 4 {
                    let (a, b) = match kind {
                        0 => (4 * k, 4 * k),
                        1 => (4 * k, 4 * k + 1),
                        2 => (4 * k, 4 * k + 4),
                        3 => (4 * k + 1, 4 * k + 3),
                        4 => (4 * k + k % 4, 4 * k + 3),
                        _ => (4 * k + 3, 4 * k + 4),
                    };
                    edits.push((stops[a], stops[b], if kind == 0 { "é" } else { ["", "x", "é😀", "\n"][k % 4] }));
                }
                ctx.state();
                ctx.transition();
                match guarded(|| both_ways(&text, &edits)) {
                    Ok(h) => ctx.outcome(h),
                    Err(m) => ctx.fail(format!("{:?} {:?}", text, edits), m),
                }
            },
        ));
    }

    // Histories.
    {
        for &plugin in PLUGINS.iter() {
            for &(start, what, quick, thorough) in [
                (0, "no document", 4, 5),
                (1, "a document which the editor had before the plugin was loaded", 3, 4),
                (2, "two documents, one of them active", 3, 4),
            ].iter() {
                let len = tier.pick(quick, thorough);
                let c = Check { bundles: bundles.clone() };
                let k = Event::all().len() as u64;
                r.push(Family::new(
                    format!("{}-histories-{}", plugin.name(), start),
                    format!("all histories of up to {} out of {} kinds of events (opening, closing, changing, activating, saving, views, questions) with three documents, starting with {}, answers in between and at the end", len, k, what),
                    n_strings(k, len),
                    move |i, ctx| {
                        let events: Vec<Event> = nth_string(k, i).into_iter().map(|e| Event::all()[e]).collect();
                        if let Some(ops) = history(plugin, start, &events) {
                            c.run(ctx, plugin, json!(null), ops);
                        }
                    },
                ));
            }
        }
    }

    // Workspace symbols.
    {
        let len = tier.pick(2, 3);
        let c = Check { bundles: bundles.clone() };
        r.push(Family::new(
            "workspace-symbols",
            format!("files of up to {} out of 5 pieces with characters of 1 to 4 bytes, two kinds of line breaks, each with a second file: places of all definitions", len),
            2 * n_strings(5, len),
            move |i, ctx| {
                let mut d = Radix(i);
                let crlf = d.take(2) == 1;
                let pieces = ["/*é😀*/ enum Éa { X }\n", "//ж\n", "trait Ж { }\n", "enum B {\n  C, //😀\n}\n", "/*😀*/"];
                let mut texts = vec![
                    nth_string(5, d.0).iter().map(|&k| pieces[k]).collect::<String>() + "enum QQa {}",
                    "//é\n/*é*/ enum QQb { É }\n".to_string(),
                ];
                let dir = scratch();
                let world = World::new(dir.clone(), Arc::new(|_| ()));
                let mut expected: Vec<Vec<Json>> = vec![Vec::new(); 4];
                let queries = ["qq", "b", "", "é"];
                for (n, text) in texts.iter_mut().enumerate() {
                    *text = with_eol(text, crlf);
                    let file = dir.join(format!("f{}.rs", n));
                    std::fs::write(&file, &text).unwrap();
                    for item in ["enum Éa { X }", "trait Ж { }", "enum B {\n  C, //😀\n}", "enum QQa {}", "enum QQb { É }"].iter() {
                        let item = with_eol(item, crlf);
                        let name = item.split(' ').nth(1).unwrap();
                        for (at, _) in text.match_indices(&item) {
                            let def = json!([name, file.to_str().unwrap(), [pos(text, at), pos(text, at + item.len())]]);
                            for (q, list) in queries.iter().zip(&mut expected) {
                                let name: Vec<char> = name.to_lowercase().chars().collect();
                                let mut left = name.iter();
                                if q.chars().all(|c| left.any(|d| *d == c)) {
                                    list.push(def.clone());
                                }
                            }
                        }
                    }
                }
                let mut ops = vec![json!({ "op": "start" }), json!({ "op": "indexed", "query": "qq", "count": 2 })];
                for (q, list) in queries.iter().zip(&expected) {
                    ops.push(json!({ "op": "workspaceSymbols", "query": q, "expected": list }));
                }
                c.run(ctx, Plugin::Rust, json!([dir.to_str().unwrap()]), ops);
                world.end();
                let _ = std::fs::remove_dir_all(&dir);
            },
        ));
    }
    r
}

/// All edits which are offered for the text, each applied to a new document.
fn edits(c: &Check, ctx: &mut Ctx, plugin: Plugin, text: &str) {
    let p = path(plugin, 0);
    let before = vec![json!({ "op": "start" }), open(plugin, 0, text), activate(plugin, 0)];
    let mut all: Vec<Vec<Json>> = Vec::new();
    if plugin == Plugin::Fall {
        all.push(vec![json!({ "op": "applyFormat", "path": p })]);
    }
    let fresh = Fresh::new(plugin, text);
    let stops = stops(text);
    for (i, &from) in stops.iter().enumerate() {
        let at = pos(text, from);
        if plugin == Plugin::Rust {
            all.push(vec![json!({ "op": "applyOnType", "path": p, "at": at, "ch": "$" })]);
        }
        for &to in [from, stops[(i + 4).min(stops.len() - 1)], *stops.last().unwrap()].iter() {
            let r = fall_tree::TextRange::from_to(unit(from), unit(to));
            for title in fresh.actions(r) {
                all.push(vec![json!({ "op": "applyAction", "path": p, "range": [at, pos(text, to)], "title": title })]);
            }
            if i % 5 == 0 {
                // not offered, or not any more
                for title in ["Swap", "Swap alternatives", "Extract rule", "No such action"].iter() {
                    all.push(vec![json!({ "op": "runAction", "range": [at, pos(text, to)], "title": title })]);
                }
            }
        }
    }
    for edit in all {
        let mut editor = Editor::new(plugin);
        let mut ops = before.clone();
        ops.extend(edit);
        for op in ops.iter() {
            if guarded(|| Ok(drop(editor.step(op)))).is_err() {
                return;
            }
        }
        let new = editor.docs[&p].clone();
        few_questions(plugin, 0, &new, true, &mut ops);
        c.run(ctx, plugin, json!(null), ops);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Event {
    Open(usize),
    Close(usize),
    Activate(usize),
    /// Of one document: an insertion, a replacement, a deletion at the start,
    /// several changes at once, none at all
    Insert(usize),
    Replace(usize),
    DeleteStart(usize),
    Several(usize),
    Nothing(usize),
    Ask(usize),
    Undo(usize),
    Save(usize),
    /// The syntax tree of the active document, in a view of its own
    ShowTree,
    /// The result of the test of the active document, in a view of its own
    Render,
}

impl Event {
    fn all() -> &'static [Event] {
        use Event::*;
        &[
            Open(0), Open(1), Open(2), Close(0), Close(1), Activate(0), Activate(1), Activate(2),
            Insert(0), Insert(1), Replace(0), DeleteStart(0), Several(0), Nothing(0), Ask(0), Undo(0),
            Save(0), ShowTree, Render,
        ]
    }
}

/// The script of a history, unless it is impossible (or the same as a
/// shorter one).
fn history(plugin: Plugin, start: usize, events: &[Event]) -> Option<Vec<Json>> {
    let texts = match plugin {
        Plugin::Fall => ["rule é { 'ж' }\n//😀\ntest r\"\nz\n\"\n", "rule b { c }\n", "plain é\n"],
        Plugin::Rust => ["struct é;\n//😀\nfn f() { x }\n", "fn g() {}\n", "plain é\n"],
    };
    let again = match plugin {
        Plugin::Fall => "//other\nrule z { z }\n",
        Plugin::Rust => "enum Z { A }\nfn z() {}\n",
    };
    let mut ops = vec![json!({ "op": "start" })];
    let mut docs: [Option<String>; 3] = [None, None, None];
    let mut before: Option<String> = None;
    let mut times = [0; 3];
    let mut active = None;
    match start {
        1 => {
            // the editor had the document before the plugin was loaded
            ops.insert(0, json!({ "op": "present", "path": path(plugin, 0), "language": language(plugin), "text": texts[0] }));
            docs[0] = Some(texts[0].to_string());
            times[0] = 1;
        }
        2 => {
            for n in 0..2 {
                ops.push(open(plugin, n, texts[n]));
                docs[n] = Some(texts[n].to_string());
                times[n] = 1;
            }
            ops.push(activate(plugin, 0));
            active = Some(0);
        }
        _ => (),
    }
    for &e in events {
        match e {
            Event::Open(n) => {
                if docs[n].is_some() {
                    return None;
                }
                // another content when it is opened again
                let text = if times[n] == 0 { texts[n] } else { again };
                times[n] += 1;
                docs[n] = Some(text.to_string());
                ops.push(open(plugin, n, text));
            }
            Event::Close(n) => {
                docs[n].take()?;
                if active == Some(n) {
                    active = None;
                }
                ops.push(json!({ "op": "close", "path": path(plugin, n) }));
            }
            Event::Activate(n) => {
                if docs[n].is_none() || active == Some(n) {
                    return None;
                }
                active = Some(n);
                ops.push(activate(plugin, n));
            }
            Event::Ask(n) => {
                let text = docs[n].as_ref()?;
                few_questions(plugin, n, text, active == Some(n), &mut ops);
                continue;
            }
            Event::Save(n) => {
                docs[n].as_ref()?;
                ops.push(json!({ "op": "save", "path": path(plugin, n) }));
            }
            Event::ShowTree => {
                if active.map_or(true, |n| n == 2) {
                    return None;
                }
                ops.push(json!({ "op": "command", "name": format!("fall-{}.showSyntaxTree", plugin.name()), "later": true }));
                ops.push(json!({ "op": "settle" }));
            }
            Event::Render => {
                let n = active?;
                let text = docs[n].as_ref()?;
                let at = match (plugin, n) {
                    (Plugin::Fall, 0) => text.find("test r")?,
                    _ => return None,
                };
                let r = json!([pos(text, at), pos(text, at)]);
                ops.push(json!({ "op": "actions", "path": path(plugin, n), "range": r }));
                ops.push(json!({ "op": "applyAction", "path": path(plugin, n), "range": r, "title": "Render test", "later": true }));
                ops.push(json!({ "op": "settle" }));
            }
            Event::Insert(n) | Event::Replace(n) | Event::DeleteStart(n) | Event::Several(n) | Event::Nothing(n) | Event::Undo(n) => {
                let text = docs[n].clone()?;
                let s = stops(&text);
                let at = |k: usize| utf16_len(&text[..s[k.min(s.len() - 1)]]);
                let changes = match e {
                    Event::Insert(_) => json!([[at(s.len() / 2), at(s.len() / 2), "😀é"]]),
                    Event::Replace(_) => json!([[at(s.len() / 3), at(2 * s.len() / 3), "ж {\n"]]),
                    Event::DeleteStart(_) => json!([[at(0), at(6), ""]]),
                    Event::Several(_) => json!([[at(1), at(2), "é"], [at(4), at(4), "😀"], [at(8), at(10), ""]]),
                    Event::Undo(_) => json!([[at(0), at(s.len()), before.clone()?]]),
                    _ => json!([]),
                };
                let new = changed(&text, &changes);
                if n == 0 {
                    before = Some(text.clone());
                }
                docs[n] = Some(new);
                ops.push(json!({ "op": "change", "path": path(plugin, n), "changes": changes }));
            }
        }
        if active.is_some() {
            ops.push(json!({ "op": "shown" }));
        }
    }
    ops.push(json!({ "op": "settle" }));
    for n in 0..3 {
        if let Some(text) = &docs[n] {
            if n < 2 {
                few_questions(plugin, n, text, active == Some(n), &mut ops);
            }
        }
    }
    Some(ops)
}

fn main() {
    let o = parse_opts();
    let bundles = Arc::new(Bundles::new());
    let families = families(o.tier, &bundles);
    run_check(o, families, Notes::default())
}
