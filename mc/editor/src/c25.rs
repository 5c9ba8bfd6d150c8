//! Outline, breadcrumbs, highlighting and typing help.

use std::sync::Arc;

use fall_editor::{EditorFileImpl, FileStructureNode};
use fall_tree::{tu, TextRange};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;
use mccore::util::{fnv, fnv_mix};
use mccore::{Ctx, Family, Tier};
use mcparse::hist::{apply, char_cuts, to_edit, Change};
use mcparse::tree::M;

use crate::names::{Call, Names, Target};
use crate::texts::{self, Depth};

type Span = (usize, usize, String);

fn pair(r: TextRange) -> (usize, usize) {
    (r.start().utf8_len() as usize, r.end().utf8_len() as usize)
}

fn outline(v: Vec<FileStructureNode>) -> Vec<Span> {
    let mut res = Vec::new();
    for n in v {
        let (s, e) = pair(n.range);
        res.push((s, e, n.name));
        res.extend(outline(n.children));
    }
    res.sort();
    res
}

fn same(what: &str, got: &[Span], want: &[Span]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let missing: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
    let spare: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
    Err(format!("{}: missing {:?}, spare {:?}, got {:?}", what, missing, spare, got))
}

/// What is in error: everything in error nodes; a character next to an empty one.
fn errors(m: &M, got: &mut Vec<Span>) -> Result<(), String> {
    for i in m.all().filter(|&i| m.name(i) == "ERROR") {
        let (s, e) = m.range(i);
        let at = got.iter().position(|g| {
            g.2 == "error" && if s < e { (g.0, g.1) == (s, e) } else { g.0 <= s && s <= g.1 && g.1 - g.0 <= 4 && g.1 <= m.text.len() }
        });
        match at {
            Some(k) => {
                got.remove(k);
            }
            None => return Err(format!("the error at {}..{} is not highlighted", s, e)),
        }
    }
    Ok(())
}

fn spans(v: fall_editor::hl::Highlights) -> Vec<Span> {
    let mut res: Vec<Span> = v
        .into_iter()
        .map(|(r, t)| {
            let (s, e) = pair(r);
            (s, e, t.0.to_owned())
        })
        .collect();
    res.sort();
    res
}

fn rust_services(file: &RustEditorFile) -> Vec<String> {
    let text = file.file().text().to_string();
    let mut res = vec![format!("{:?} {:?} {}", outline(file.structure()), spans(file.highlight()), file.syntax_tree())];
    for o in char_cuts(&text) {
        let o = tu(o as u32);
        let e = file.expand(o).map(|e| e.apply(file.file().text()).to_string());
        let s = file.extend_selection(TextRange::from_len(o, tu(0)));
        res.push(format!("{:?} {:?} {:?} {:?} {:?}", file.breadcrumbs(o), file.after_space_typed(o), e, s, file.context_actions(TextRange::from_len(o, tu(0)))));
    }
    res
}

fn crumbs(m: &M, leaf: usize) -> Vec<String> {
    let mut res = Vec::new();
    for a in m.ancestors(leaf) {
        let tag = match m.name(a) {
            "STRUCT_DEF" => "struct",
            "ENUM_DEF" => "enum",
            "TRAIT_DEF" => "trait",
            "FN_DEF" => "fn",
            "IMPL_DEF" => {
                let types: Vec<&str> = m.kids(a, "TYPE_REFERENCE").map(|t| m.text_of(t)).take(2).collect();
                if !types.is_empty() {
                    res.push(format!("impl {}", types.join(" for ")));
                }
                continue;
            }
            _ => continue,
        };
        if let Some(n) = m.kid(a, "IDENT") {
            res.push(format!("{} {}", tag, m.text_of(n)));
        }
    }
    res.reverse();
    res
}

fn judge_rust(text: &str) -> Result<u64, String> {
    let file = RustEditorFile::parse(text);
    let m = M::new(file.file());
    let mut want: Vec<Span> = Vec::new();
    for i in m.all() {
        if ["FN_DEF", "STRUCT_DEF", "ENUM_DEF", "TYPE_DEF", "TRAIT_DEF", "MOD_DEF"].contains(&m.name(i)) {
            if let Some(n) = m.kid(i, "IDENT") {
                want.push((m.nodes[i].start, m.nodes[i].end, m.text_of(n).to_owned()));
            }
        }
    }
    want.sort();
    same("outline", &outline(file.structure()), &want)?;
    let mut got = spans(file.highlight());
    errors(&m, &mut got)?;
    same("highlighting", &got, &[])?;
    let mut h = want.iter().fold(3, |h, w| fnv_mix(h, fnv(w.2.as_bytes()) + w.0 as u64));
    for o in char_cuts(text) {
        let at = tu(o as u32);
        // Breadcrumbs.
        let got = file.breadcrumbs(at);
        let leaves = m.leaves_at(0, o);
        let want: Vec<_> = leaves.iter().map(|&l| crumbs(&m, l)).collect();
        if !want.contains(&got) && !(want.is_empty() && got.is_empty()) {
            return Err(format!("breadcrumbs at {}: {:?}, not one of {:?}", o, got, want));
        }
        h = fnv_mix(h, got.len() as u64);
        // A space after a fresh `let`.
        if text[..o].ends_with(' ') {
            let fresh = m.leaves_at(0, o - 1).into_iter().any(|l| {
                m.name(l) == "LET"
                    && m.nodes[l].end == o - 1
                    && match m.enclosing(l, "LET_STMT") {
                        Some(s) => {
                            m.kid(s, "SEMI").is_none()
                                && m.kid(s, "EQ").is_none()
                                && !text[m.nodes[s].end..].starts_with(';')
                        }
                        None => false,
                    }
            });
            let got = file.after_space_typed(at);
            let want = if fresh { Some(";".to_owned()) } else { None };
            if got != want {
                return Err(format!("after a space at {}: {:?}, not {:?}", o, got, want));
            }
            h = fnv_mix(h, fresh as u64);
        }
        // The suffix of a debug print.
        if text[..o].ends_with('$') {
            let got = file.expand(at).map(|e| e.apply(file.file().text()).to_string());
            let want: Vec<String> = if text[..o].ends_with(".pd$") {
                m.all()
                    .filter(|&i| m.name(i) == "EXPR_STMT" && m.nodes[i].end == o - 1 && m.nodes[i].start < o - 4)
                    .map(|i| {
                        let e = &text[m.nodes[i].start..o - 4];
                        format!("{}eprintln!(\"{} = {{:?}}\", {});{}", &text[..m.nodes[i].start], e, e, &text[o..])
                    })
                    .collect()
            } else {
                Vec::new()
            };
            match &got {
                None if want.is_empty() => {}
                Some(t) if want.contains(t) => h = fnv_mix(h, 11),
                _ => return Err(format!("expanding at {}: {:?}, not one of {:?}", o, got, want)),
            }
        }
    }
    Ok(h)
}

fn fall_services(file: &FileWithAnalysis) -> Vec<String> {
    let text = file.file().text().to_string();
    let mut res = vec![
        format!("{:?} {:?} {}", outline(file.structure()), spans(file.highlight()), file.syntax_tree()),
        format!("{:?} {:?}", file.reformat().apply(file.file().text()).to_string(), crate::c19::diagnostics(file)),
    ];
    for o in char_cuts(&text) {
        let o = tu(o as u32);
        let s = file.extend_selection(TextRange::from_len(o, tu(0)));
        res.push(format!(
            "{:?} {:?} {:?} {:?} {:?}",
            file.resolve_reference(o), file.find_usages(o), file.test_at_offset(o), s, file.context_actions(TextRange::from_len(o, tu(0)))
        ));
    }
    res
}

fn judge_fall(text: &str) -> Result<u64, String> {
    let file = FileWithAnalysis::parse(text);
    let m = M::new(file.file());
    let n = Names::new(&m);
    let mut want: Vec<Span> = Vec::new();
    for i in m.all() {
        let name = match m.name(i) {
            "SYN_RULE" => match n.ident(i) {
                Some(name) => name,
                None => continue,
            },
            "TOKENIZER_DEF" => "tokenizer",
            "AST_DEF" => "ast",
            _ => continue,
        };
        want.push((m.nodes[i].start, m.nodes[i].end, name.to_owned()));
    }
    want.sort();
    same("outline", &outline(file.structure()), &want)?;

    let mut want: Vec<Span> = Vec::new();
    for i in m.all() {
        let mut tag = |k: Option<usize>, t: &str| {
            if let Some(k) = k {
                want.push((m.nodes[k].start, m.nodes[k].end, t.to_owned()));
            }
        };
        match m.name(i) {
            "EOL_COMMENT" => tag(Some(i), "comment"),
            "HASH_STRING" | "SIMPLE_STRING" => tag(Some(i), "string"),
            "RULE" | "VERBATIM" | "TOKENIZER" | "AST" | "NODE" | "CLASS" | "PUB" | "TEST" | "TRAIT" => tag(Some(i), "keyword"),
            "PARAMETER" => tag(Some(i), "parameter"),
            "ATTRIBUTES" => tag(Some(i), "attribute"),
            "LEX_RULE" => tag(m.kid(i, "IDENT"), "literal"),
            "SYN_RULE" | "AST_NODE_DEF" | "AST_TRAIT_DEF" | "AST_CLASS_DEF" => tag(m.kid(i, "IDENT"), "function"),
            "REF_EXPR" => match n.resolve_ref(i).first() {
                Some(Target::Token(_)) => tag(Some(i), "literal"),
                Some(Target::Rule(_)) => tag(Some(i), "function"),
                Some(Target::Param(_)) => tag(Some(i), "parameter"),
                _ => {}
            },
            "METHOD_DEF" => {
                let k = m.kid(i, "AST_SELECTOR").and_then(|s| m.kid(s, "IDENT"));
                match n.resolve_method(i) {
                    Some((Target::Token(_), false)) => tag(k, "literal"),
                    Some((_, false)) => tag(k, "function"),
                    _ => {}
                }
            }
            "CALL_EXPR" => {
                // Built-ins that lack something they need are not tagged so.
                let t = match n.resolve_call(i) {
                    Call::Builtin if builtin_works(&n, i) => "builtin",
                    _ => "function",
                };
                for part in &["IDENT", "L_ANGLE", "R_ANGLE"] {
                    tag(m.kid(i, part), t);
                }
            }
            _ => {}
        }
    }
    want.sort();
    let mut got = spans(file.highlight());
    errors(&m, &mut got)?;
    same("highlighting", &got, &want)?;

    let tests: Vec<usize> = m.kids(0, "TEST_DEF").collect();
    for o in char_cuts(text) {
        let got = file.test_at_offset(tu(o as u32));
        let leaves = m.leaves_at(0, o);
        let want: Vec<Option<usize>> = leaves
            .iter()
            .map(|&l| m.ancestors(l).into_iter().filter_map(|a| tests.iter().position(|&t| t == a)).next())
            .collect();
        if !want.contains(&got) && !(want.is_empty() && got.is_none()) {
            return Err(format!("test at {}: {:?}, not one of {:?}", o, got, want));
        }
    }
    Ok(want.iter().fold(5, |h, w| fnv_mix(h, fnv(w.2.as_bytes()) + w.0 as u64)))
}

/// Whether a call of a built-in has what it needs.
fn builtin_works(n: &Names, call: usize) -> bool {
    let args = n.exprs(call);
    let context = || args.first().map_or(false, |&a| n.m.kid(a, "SIMPLE_STRING").is_some());
    match n.ident(call).unwrap_or("") {
        "not" => !args.is_empty(),
        "layer" | "with_skip" | "inject" => args.len() >= 2,
        "is_in" => context(),
        "enter" | "exit" => args.len() >= 2 && context(),
        _ => true,
    }
}

fn judge(lang: &str, text: &str) -> Result<u64, String> {
    if lang == "rust" {
        judge_rust(text)
    } else {
        judge_fall(text)
    }
}

/// Services of an edited file refer to its current text.
fn judge_edit(lang: &str, text: &str, change: &Change) -> Result<u64, String> {
    let new = apply(text, change);
    let edit = to_edit(text, change, 0);
    let (a, b) = if lang == "rust" {
        let old = RustEditorFile::parse(text);
        // Ask for everything before, so that there is something to go stale.
        rust_services(&old);
        (rust_services(&old.edit(&edit)), rust_services(&RustEditorFile::parse(&new)))
    } else {
        let old = FileWithAnalysis::parse(text);
        fall_services(&old);
        (fall_services(&old.edit(&edit)), fall_services(&FileWithAnalysis::parse(&new)))
    };
    match a.iter().zip(&b).find(|(x, y)| x != y) {
        Some(d) => Err(format!("answers of the edited and of a fresh file differ: {:?}", d)),
        None if a.len() != b.len() => Err("texts differ".to_owned()),
        None => Ok(a.iter().fold(1, |h, s| fnv_mix(h, fnv(s.as_bytes())))),
    }
}

fn edits(name: &'static str, texts: Vec<String>, pieces: Vec<&'static str>) -> Family {
    let places: Vec<(usize, usize)> = texts
        .iter()
        .enumerate()
        .flat_map(|(i, t)| {
            let f = (texts::shipped(name).lang)().parse(t.clone());
            (1..mcparse::langs::token_cuts(&f).len()).map(move |w| (i, w))
        })
        .collect();
    let lang = texts::shipped(name).lang;
    Family::new(
        format!("{}-edits", name),
        format!("{} samples, with every token removed, doubled, or replaced by one of {} pieces incrementally", texts.len(), pieces.len()),
        places.len() as u64,
        move |i, ctx| {
            let (i, w) = places[i as usize];
            let text = &texts[i];
            let cuts = mcparse::langs::token_cuts(&lang().parse(text.clone()));
            let (a, b) = (cuts[w - 1], cuts[w]);
            let mut changes = vec![vec![(a, b, String::new())], vec![(b, b, text[a..b].to_owned())]];
            for p in &pieces {
                changes.push(vec![(a, b, (*p).to_owned())]);
            }
            for c in changes {
                ctx.state();
                ctx.check(&|| format!("{}: {:?} edited by {:?}", name, text, c), || judge_edit(name, text, &c));
            }
        },
    )
}

pub fn families(tier: Tier) -> Vec<Family> {
    let each: texts::Each = Arc::new(|s, text, ctx: &mut Ctx| {
        ctx.state();
        ctx.check(&|| format!("{}: {:?}", s.name, text), || judge(s.name, text));
    });
    let rust = texts::shipped("rust");
    let extra: Vec<String> = [
        "mod m { struct A; enum B { X } fn f() { fn g() { struct C {} } } type T = u8; trait D { fn h(); } }impl D for A { fn h() {} }impl<T> B<T> {}struct é {}",
        "fn f() { let  let x let y = 1; let z; let w\n if let  { } }",
        "fn f() { x.pd$ foo(1).bar.pd$ } fn g() { let y = z.pd$; a.pd; if b { c.pd$ } }",
        "fn f() { x.pd$; é.pd$ \n y.d$ .pd$ pd$ $ x.pd $ m!($x.pd$) }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let mut res = texts::families(
        &rust,
        &extra,
        Depth { short: tier.pick(1, 2), long: tier.pick(2, 3), sample: tier.pick(400, 1000), all_pieces: tier.pick(false, true) },
        each.clone(),
    );
    // Typing help.
    let mut typing = mcparse::langs::all().into_iter().find(|s| s.name == "rust").unwrap();
    typing.samples = Vec::new();
    typing.pieces = vec!["let ", "let", " ", "x", ".pd", "$", ";", "=", "é", "\n", "}"];
    typing.core = vec!["let ", "x", ".pd$", ";", "{", "}", "if "];
    typing.frames = vec![("fn f() { ", "}"), ("fn f() { g(", ") }")];
    for mut f in texts::families(
        &Arc::new(typing),
        &[],
        Depth { short: tier.pick(4, 5), long: tier.pick(5, 6), sample: 0, all_pieces: false },
        each.clone(),
    ) {
        f.name = format!("typing-{}", f.name);
        if f.size > 0 {
            res.push(f);
        }
    }
    let fall = texts::shipped("fall");
    let fall_extra: Vec<String> = [
        "tokenizer { t r\"t\" k 'k' } rule a(x) { <b x t> 'k' zz <eof> <zz> } rule b(p, q) { <a p> q } ast { node a { t t x b y c.text z z? k k } class b { a } class c { } trait tr { q a* r t.text } node z: tr, ur, { } }",
        "test r\"a\" rule a { <enter 'c' b> <is_in 'd'> <is_in> <not> } // c\ntest r\"b\" test test r\"c\" rule { }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    res.extend(texts::families(
        &fall,
        &fall_extra,
        Depth { short: 2, long: tier.pick(3, 4), sample: tier.pick(400, 1000), all_pieces: true },
        each.clone(),
    ));
    for s in &[&rust, &fall] {
        res.push(texts::stretched(s, tier.pick(60, 120), tier.pick(256, 512), each.clone()));
    }
    let short = |s: &texts::Shipped, extra: &[String], n| -> Vec<String> {
        s.samples.iter().chain(extra).filter(|t| t.len() <= n).cloned().collect()
    };
    let n = tier.pick(200, 400);
    res.push(edits("rust", short(&rust, &extra, n), tier.pick(rust.core.clone(), rust.pieces.clone())));
    res.push(edits("fall", short(&fall, &fall_extra, n), tier.pick(fall.core.clone(), fall.pieces.clone())));
    res
}
