//! A grammar, its generated parser and its reference side by side.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashSet;

use fall_parse::runtime as rt;
use fall_parse::{Expr, LexRule, ParserDefinition, RegexLexer};
use fall_tree::{File, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use lang_fall::FileWithAnalysis;
use mccore::util::fnv_mix;
use mccore::{guarded, Ctx};
use mcparse::shape::check_shape;
use mcparse::spec;
use mcparse::tree::M;
use regex::Regex;

use crate::refc::{self, Arity, Child, Model, Pat, Verdict};

/// A grammar and the texts its parser is run on.
pub struct Grammar {
    pub text: String,
    pub pieces: Vec<String>,
    pub depth: u32,
}

impl Grammar {
    pub fn new<S: Into<String>>(text: S, pieces: &[&str], depth: u32) -> Grammar {
        Grammar { text: text.into(), pieces: pieces.iter().map(|s| s.to_string()).collect(), depth }
    }

    pub fn texts(&self) -> Vec<String> {
        let p: Vec<&str> = self.pieces.iter().map(|s| s.as_str()).collect();
        mcparse::gram::texts(&p, self.depth)
    }
}

pub fn analyse(text: &str) -> FileWithAnalysis {
    lang_fall::analyse(text.to_owned())
}

pub fn generate(text: &str) -> Result<String, String> {
    analyse(text).analyse(|a| fall_gen::generate(a)).map_err(|e| e.to_string())
}

pub fn verdict(text: &str) -> Verdict {
    let file = lang_fall::parse(text.to_owned());
    let m = M::new(&file);
    refc::verdict(&m)
}

// --- the reference ------------------------------------------------------------

/// Custom recognizers by their name.
fn custom(name: &str) -> Option<fn(&str) -> Option<usize>> {
    fn parse_raw_string(s: &str) -> Option<usize> {
        let n = s[1..].bytes().take_while(|b| *b == b'#').count();
        let end = format!("\"{}", "#".repeat(n));
        let from = n + 2;
        if s.as_bytes().get(n + 1) != Some(&b'"') {
            return None;
        }
        s[from..].find(&end).map(|i| from + i + end.len())
    }
    fn until_b(s: &str) -> Option<usize> {
        s.find('b').map(|i| i + 1)
    }
    match name {
        "parse_raw_string" => Some(parse_raw_string),
        "until_b" => Some(until_b),
        _ => None,
    }
}

/// All tokens of a text: type, start, length.
pub fn lex(model: &Model, text: &str) -> Vec<(u32, u32, u32)> {
    let token = |s: &str| -> Option<(u32, usize)> {
        let mut best: Option<(usize, usize)> = None;
        for (i, r) in model.lex.iter().enumerate() {
            let l = match &r.pat {
                Pat::Literal(p) => if s.starts_with(p.as_str()) { p.len() } else { 0 },
                Pat::Re(re) => re.find(s).map_or(0, |m| m.end()),
            };
            if l > best.map_or(0, |b| b.1) {
                best = Some((i, l));
            }
        }
        let (i, l) = best?;
        let l = match &model.lex[i].custom {
            None => l,
            Some(f) => custom(f).expect("a known recognizer")(s)?,
        };
        Some((model.lex[i].ty, l))
    };
    let mut res = Vec::new();
    let mut at = 0;
    while at < text.len() {
        let start = at;
        let ty = match token(&text[at..]) {
            Some((t, l)) => {
                at += l;
                t
            }
            None => {
                loop {
                    at += text[at..].chars().next().unwrap().len_utf8();
                    if at == text.len() || token(&text[at..]).is_some() {
                        break;
                    }
                }
                0
            }
        };
        res.push((ty, start as u32, (at - start) as u32));
    }
    res
}

pub struct Want {
    pub tree: spec::Tree,
    raw: Vec<(u32, u32, u32)>,
}

pub fn want(model: &Model, text: &str) -> Result<Want, spec::Ill> {
    let raw = lex(model, text);
    let sig: Vec<_> = raw.iter().cloned().filter(|t| !model.types[t.0 as usize].1).collect();
    let types: Vec<NodeType> = (0..model.types.len() as u32).map(NodeType).collect();
    let tree = spec::parse(&model.exprs, &types, text, &sig)?;
    Ok(Want { tree, raw })
}

pub fn flat(n: Node, model: &Model, skip: bool, out: &mut Vec<u64>) -> Result<(), String> {
    let info = n.file().language().node_type_info(n.ty());
    let ty = match model.types.iter().position(|t| t.0 == info.name) {
        Some(ty) => ty,
        None => return Err(format!("a node of the type {}", info.name)),
    };
    if model.types[ty].1 != info.whitespace_like {
        return Err(format!("{} is skipped: {}", info.name, info.whitespace_like));
    }
    if spec::is_leaf(n) {
        if !(skip && info.whitespace_like) {
            let r = n.range();
            let (s, l) = (r.start().utf8_len() as u64, r.len().utf8_len() as u64);
            out.push(s << 40 | l << 20 | ty as u64);
        }
        return Ok(());
    }
    out.push(1 << 62 | ty as u64);
    for c in n.children() {
        flat(c, model, skip, out)?;
    }
    out.push(2 << 62);
    Ok(())
}

/// Compares a file to the reference.
pub fn compare(model: &Model, file: &File, text: &str, want: &Want) -> Result<u64, String> {
    check_shape(file, text)?;
    let skip = model.binder;
    let mut got = Vec::new();
    flat(file.root(), model, skip, &mut got)?;
    let expected = if skip {
        let mut v = Vec::new();
        spec::flatten(&want.tree, &mut v);
        v
    } else {
        spec::place_whitespace(&want.tree, &want.raw, &|t| model.types[t as usize].1, &|_, _, _| 0)
    };
    if got != expected {
        let show = |v: &[u64]| spec::show_flat(v, &|t| model.types[t as usize].0.clone());
        return Err(format!("expected tree: {}\n  actual tree: {}", show(&expected), show(&got)));
    }
    Ok(got.iter().fold(7, |h, &x| fnv_mix(h, x)))
}

// --- interpretation of the generated text -----------------------------------------

/// The parts of a generated parser; `None` if it is written in a way this
/// does not understand.
pub struct Parts {
    consts: Vec<(String, u32)>,
    infos: Vec<(String, String, bool)>,
    order: Vec<String>,
    lex: Vec<(String, String)>,
    json: String,
}

struct Res {
    consts: Regex,
    infos: Regex,
    order: Regex,
    lex: Regex,
    json: Regex,
}

thread_local! {
    static RES: Res = Res {
        consts: Regex::new(r"pub const (\w+): rt::NodeType = rt::NodeType\((\d+)\);").unwrap(),
        infos: Regex::new(r#"(\w+) => rt::NodeTypeInfo \{ name: "(\w+)", whitespace_like: (true|false) \},"#).unwrap(),
        order: Regex::new(r"node_types: vec!\[([\s\w:,]*)\],").unwrap(),
        lex: Regex::new(r#"rt::LexRule::new\((\w+), "((?:[^"\\]|\\.)*)", None\),"#).unwrap(),
        json: Regex::new(r####"r##"(.*)"##;"####).unwrap(),
    };
    static NAMES: RefCell<HashSet<&'static str>> = Default::default();
}

fn intern(s: &str) -> &'static str {
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(s) = n.get(s) {
            return *s;
        }
        let s: &'static str = Box::leak(s.to_owned().into_boxed_str());
        n.insert(s);
        s
    })
}

fn unescape(s: &str) -> Option<String> {
    let mut res = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c != '\\' {
            res.push(c);
            continue;
        }
        match cs.next()? {
            'n' => res.push('\n'),
            't' => res.push('\t'),
            'r' => res.push('\r'),
            c if c == '\\' || c == '"' || c == '\'' => res.push(c),
            _ => return None,
        }
    }
    Some(res)
}

pub fn extract(code: &str) -> Option<Parts> {
    RES.with(|re| {
        let consts: Vec<(String, u32)> =
            re.consts.captures_iter(code).map(|c| Some((c[1].to_owned(), c[2].parse().ok()?))).collect::<Option<_>>()?;
        let infos =
            re.infos.captures_iter(code).map(|c| (c[1].to_owned(), c[2].to_owned(), &c[3] == "true")).collect();
        let order: Vec<String> = re.order.captures(code)?[1]
            .split(',')
            .map(|s| s.trim().trim_start_matches("rt::").to_owned())
            .filter(|s| !s.is_empty())
            .collect();
        if code.matches("LexRule::new").count() != re.lex.captures_iter(code).count() || code.matches("pub const ").count() != consts.len() {
            return None;
        }
        let lex = re.lex.captures_iter(code).map(|c| Some((c[1].to_owned(), unescape(&c[2])?))).collect::<Option<_>>()?;
        let json = re.json.captures(code)?[1].to_owned();
        if code.contains("                whitespace_binder,") {
            return None;
        }
        Some(Parts { consts, infos, order, lex, json })
    })
}

struct Info(BTreeMap<u32, (&'static str, bool)>);

impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn reparse(
        &self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder,
    ) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        let (name, whitespace_like) = self.0[&ty.0];
        NodeTypeInfo { name, whitespace_like }
    }
}

struct Interpreted {
    lexer: RegexLexer,
    def: ParserDefinition,
    info: Language,
}

impl LanguageImpl for Interpreted {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        rt::parse(&self.info, &self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(
        &self, incremental_data: &dyn Any, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder,
    ) -> Option<Box<dyn Any + Sync + Send>> {
        rt::reparse(&self.info, &self.lexer, &self.def, incremental_data, edit, new_text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        self.info.node_type_info(ty)
    }
}

/// The language a generated text describes.
pub fn interpret(p: &Parts) -> Option<Language> {
    let exprs: Vec<Expr> = serde_json::from_str(&p.json).ok()?;
    let value = |name: &str| -> Option<u32> {
        if name == "ERROR" {
            return Some(fall_tree::ERROR.0);
        }
        p.consts.iter().find(|c| c.0 == name).map(|c| c.1)
    };
    let mut info = BTreeMap::new();
    for (c, name, ws) in &p.infos {
        // The first arm matches.
        info.entry(value(c)?).or_insert((intern(name), *ws));
    }
    for c in &p.order {
        if !info.contains_key(&value(c)?) {
            return None;
        }
    }
    let node_types = p.order.iter().map(|c| value(c).map(NodeType)).collect::<Option<Vec<_>>>()?;
    let lex =
        p.lex.iter().map(|(c, re)| value(c).map(|v| LexRule::new(NodeType(v), re, None))).collect::<Option<Vec<_>>>()?;
    Some(Language::new(Interpreted {
        lexer: RegexLexer::new(lex),
        def: ParserDefinition { node_types, syntactical_rules: exprs, ..Default::default() },
        info: Language::new(Info(info)),
    }))
}

// --- judging ----------------------------------------------------------------------

fn short(r: &Result<String, String>) -> String {
    match r {
        Ok(_) => "accepted".to_owned(),
        Err(e) => format!("reported: {}", e),
    }
}

/// Whether a grammar is accepted.
fn judge_verdict(v: &Verdict, got: &Result<String, String>) -> Result<u64, String> {
    match (v, got) {
        (Verdict::Invalid(why), Ok(_)) => Err(format!("a parser for an invalid grammar ({})", why)),
        (Verdict::Valid(_), Err(e)) => Err(format!("no parser for a valid grammar: {}", e)),
        (Verdict::Valid(_), Ok(_)) => Ok(1),
        (Verdict::Invalid(_), Err(_)) => Ok(2),
        (Verdict::Open(_), r) => Ok(3 + r.is_ok() as u64),
    }
}

/// Generation only; true if there is a parser to look at.
fn explore_verdict(g: &Grammar, v: &Verdict, got: &Result<String, String>, ctx: &mut Ctx) -> bool {
    ctx.state();
    ctx.check(&|| format!("grammar {:?}", g.text), || judge_verdict(v, got).map_err(|e| format!("{} ({})", e, short(got))));
    match v {
        Verdict::Invalid(_) => ctx.count("invalid_grammars", 1),
        Verdict::Open(_) => ctx.count("unspecified_grammars", 1),
        Verdict::Valid(_) => ctx.count("valid_grammars", 1),
    }
    got.is_ok()
}

fn explore_texts(g: &Grammar, model: &Model, lang: &Language, ctx: &mut Ctx) {
    for text in g.texts() {
        match want(model, &text) {
            Err(_) => {
                ctx.count("outside_of_the_domain", 1);
                ctx.beat();
            }
            Ok(w) => {
                ctx.state();
                ctx.check(&|| format!("grammar {:?} on {:?}", g.text, text), || {
                    compare(model, &lang.parse(text.clone()), &text, &w)
                });
            }
        }
    }
}

/// Generates a parser, interprets it and compares it to the reference.
pub fn explore(g: &Grammar, ctx: &mut Ctx) {
    let v = verdict(&g.text);
    let got = match guarded(|| Ok(generate(&g.text))) {
        Ok(r) => r,
        Err(e) => {
            ctx.check(&|| format!("grammar {:?}", g.text), || Err(e.clone()));
            return;
        }
    };
    ctx.sample(|| g.text.clone());
    if !explore_verdict(g, &v, &got, ctx) {
        return;
    }
    if let (Verdict::Valid(model), Ok(code)) = (&v, &got) {
        match extract(code).and_then(|p| interpret(&p)) {
            None => ctx.count("not_interpreted", 1),
            Some(lang) => explore_texts(g, model, &lang, ctx),
        }
    }
}

/// A parser that was generated and compiled at build time.
#[derive(Clone, Copy)]
pub struct Compiled {
    pub language: fn() -> &'static Language,
    pub views: fn(&File) -> Vec<String>,
}

pub fn explore_compiled(g: &Grammar, c: Option<Compiled>, ctx: &mut Ctx) {
    let v = verdict(&g.text);
    let got = generate(&g.text);
    if !explore_verdict(g, &v, &got, ctx) {
        return;
    }
    let (model, c) = match (&v, c) {
        (Verdict::Valid(m), Some(c)) => (m, c),
        _ => return,
    };
    explore_texts(g, model, (c.language)(), ctx);
    for text in g.texts() {
        if want(model, &text).is_err() {
            continue;
        }
        ctx.check(&|| format!("views of {:?} on {:?}", g.text, text), || {
            let file = (c.language)().parse(text.clone());
            let want = views(model, &M::new(&file));
            let got = (c.views)(&file);
            if got != want {
                return Err(format!("expected {:?}\n  actual {:?}", want, got));
            }
            Ok(got.len() as u64)
        });
    }
}

/// What the views show.
fn views(model: &Model, m: &M) -> Vec<String> {
    let mut res = Vec::new();
    let at = |i: usize| format!("{}..{}", m.nodes[i].start, m.nodes[i].end);
    for i in m.all() {
        let kids = |ty: &str| -> Vec<usize> { m.nodes[i].children.iter().cloned().filter(|&k| m.name(k) == ty).collect() };
        let show = |method: &refc::Method| -> String {
            let found: Vec<String> = match &method.child {
                Child::Node(n) => kids(&model.views.nodes[*n].ty).into_iter().map(at).collect(),
                Child::Class(c) => {
                    let tys: Vec<(&str, &str)> = model.views.classes[*c]
                        .1
                        .iter()
                        .map(|v| {
                            let n = model.views.nodes.iter().find(|n| n.name == *v).unwrap();
                            (n.ty.as_str(), v.as_str())
                        })
                        .collect();
                    m.nodes[i]
                        .children
                        .iter()
                        .filter_map(|&k| tys.iter().find(|t| t.0 == m.name(k)).map(|t| format!("{} {}", t.1, at(k))))
                        .collect()
                }
                Child::Token(t) => kids(t).into_iter().map(at).collect(),
                Child::Text(t) => kids(t).into_iter().map(|k| format!("{:?}", m.text_of(k))).collect(),
            };
            let found: Vec<String> = match method.arity {
                Arity::Single if found.is_empty() => vec!["missing".to_owned()],
                Arity::Many => found,
                _ => found.into_iter().take(1).collect(),
            };
            format!("  {} {:?}", method.name, found)
        };
        for n in model.views.nodes.iter().filter(|n| n.ty == m.name(i)) {
            res.push(format!("{} {}", n.name, at(i)));
            res.extend(n.methods.iter().map(|x| show(x)));
            for &t in &n.traits {
                res.push(format!(" {}", model.views.traits[t].0));
                res.extend(model.views.traits[t].1.iter().map(|x| show(x)));
            }
        }
        for (name, variants) in &model.views.classes {
            let v = variants.iter().find(|v| model.views.nodes.iter().any(|n| n.name == **v && n.ty == m.name(i)));
            if let Some(v) = v {
                res.push(format!("{} {} {}", name, v, at(i)));
            }
        }
    }
    res
}

/// Code that shows everything the views of a grammar show.
pub fn views_code(model: &Model) -> String {
    let mut s = String::new();
    let value = |method: &refc::Method, call: &str| -> String {
        let (ty, show) = match &method.child {
            Child::Node(n) => (format!("super::{}<'f>", model.views.nodes[*n].name), "show_node(v)".to_owned()),
            Child::Class(c) => {
                let name = &model.views.classes[*c].0;
                (format!("super::{}<'f>", name), format!("show_{}(v)", name))
            }
            Child::Token(_) => ("h::Node<'f>".to_owned(), "h::at(v)".to_owned()),
            Child::Text(_) => ("h::Text<'f>".to_owned(), "format!(\"{:?}\", v.to_string())".to_owned()),
        };
        match method.arity {
            Arity::Single => format!("{{ let v: {} = {}; vec![{}] }}", ty, call, show),
            Arity::Optional => {
                format!("{{ let v: ::std::option::Option<{}> = {}; v.into_iter().map(|v| {}).collect() }}", ty, call, show)
            }
            Arity::Many => format!("{{ {}.map(|v: {}| {}).collect() }}", call, ty, show),
        }
    };
    s += "use mcgen::rtv as h;\nuse mcgen::rtv::AstNode as _;\n";
    s += "fn show_node<'f, A: h::AstNode<'f>>(a: A) -> ::std::string::String { h::at(a.node()) }\n";
    for (name, variants) in &model.views.classes {
        s += &format!("fn show_{}<'f>(x: super::{}<'f>) -> ::std::string::String {{ match x {{\n", name, name);
        for v in variants {
            s += &format!("    super::{}::{}(v) => {{ let v: super::{}<'f> = v; format!(\"{} {{}}\", h::at(h::AstNode::node(v))) }}\n", name, v, v, v);
        }
        s += "} }\n";
    }
    for n in &model.views.nodes {
        s += &format!("fn view_{}<'f>(x: super::{}<'f>, out: &mut ::std::vec::Vec<::std::string::String>) {{\n", n.name, n.name);
        s += &format!("    out.push(format!(\"{} {{}}\", h::at(h::AstNode::node(x))));\n", n.name);
        for m in &n.methods {
            s += &format!("    h::call(out, \"{}\", || {});\n", m.name, value(m, &format!("super::{}::{}(&x)", n.name, m.name)));
        }
        for &t in &n.traits {
            let (tr, methods) = &model.views.traits[t];
            s += &format!("    out.push(\" {}\".to_owned());\n", tr);
            for m in methods {
                s += &format!(
                    "    h::call(out, \"{}\", || {});\n",
                    m.name,
                    value(m, &format!("<super::{}<'f> as super::{}<'f>>::{}(&x)", n.name, tr, m.name))
                );
            }
        }
        s += "}\n";
    }
    s += "pub fn views(file: &h::File) -> ::std::vec::Vec<::std::string::String> {\n    let mut out = ::std::vec::Vec::new();\n    for n in h::nodes(file) {\n";
    for n in &model.views.nodes {
        s += &format!("        if let Some(x) = <super::{} as h::AstNode>::wrap(n) {{ view_{}(x, &mut out); }}\n", n.name, n.name);
    }
    for (name, _) in &model.views.classes {
        s += &format!(
            "        if let Some(x) = <super::{} as h::AstNode>::wrap(n) {{ assert!(h::AstNode::node(x) == n); out.push(format!(\"{} {{}}\", show_{}(x))); }}\n",
            name, name, name
        );
    }
    s += "    }\n    out\n}\n";
    s
}
