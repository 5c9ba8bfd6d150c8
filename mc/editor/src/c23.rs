//! Editor services on any text.

use std::sync::Arc;

use fall_editor::{EditorFileImpl, FileStructureNode};
use fall_tree::{tu, TextEdit, TextRange, TextUnit};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;
use mccore::util::{fnv, fnv_mix, n_strings, nth_string};
use mccore::{guarded, Ctx, Family, Tier};
use mcparse::hist::char_cuts;

use crate::texts::{self, Depth};

struct Bounds<'t> {
    text: &'t str,
    hash: u64,
}

impl<'t> Bounds<'t> {
    fn range(&mut self, what: &str, r: TextRange) -> Result<(), String> {
        let (s, e) = (r.start().utf8_len() as usize, r.end().utf8_len() as usize);
        self.hash = fnv_mix(self.hash, (s * 1000 + e) as u64);
        if s > e || e > self.text.len() {
            return Err(format!("{}: {}..{} is outside of the text", what, s, e));
        }
        if !self.text.is_char_boundary(s) || !self.text.is_char_boundary(e) {
            return Err(format!("{}: {}..{} splits a character", what, s, e));
        }
        Ok(())
    }

    fn outline(&mut self, v: &[FileStructureNode]) -> Result<(), String> {
        for n in v {
            self.range("outline", n.range)?;
            self.outline(&n.children)?;
        }
        Ok(())
    }
}

fn common<E: EditorFileImpl>(text: &str, file: &E, selections: bool) -> Result<u64, String> {
    let mut b = Bounds { text, hash: 1 };
    let apply = |what: &str, e: Option<TextEdit>| -> Result<u64, String> {
        match e {
            None => Ok(0),
            Some(e) => {
                let t = guarded(|| Ok(e.apply(file.file().text()).to_string())).map_err(|m| format!("{}: applying the edit: {}", what, m))?;
                Ok(fnv(t.as_bytes()))
            }
        }
    };
    let service = |what: &str, f: &dyn Fn() -> Result<(), String>| guarded(f).map_err(|m| format!("{}: {}", what, m));
    // Whole file services.
    service("metrics", &|| {
        file.metrics();
        Ok(())
    })?;
    service("syntax tree", &|| {
        file.syntax_tree();
        Ok(())
    })?;
    let outline = guarded(|| Ok(file.structure())).map_err(|m| format!("outline: {}", m))?;
    b.outline(&outline)?;
    for (r, _) in guarded(|| Ok(file.highlight())).map_err(|m| format!("highlighting: {}", m))? {
        b.range("highlighting", r)?;
    }
    for d in guarded(|| Ok(file.diagnostics())).map_err(|m| format!("diagnostics: {}", m))? {
        b.range("diagnostics", d.range)?;
    }
    let e = guarded(|| Ok(file.reformat())).map_err(|m| format!("formatting: {}", m))?;
    b.hash ^= apply("formatting", Some(e))?;
    // Services at a place.
    let cuts = char_cuts(text);
    for (i, &s) in cuts.iter().enumerate() {
        let n = if selections { cuts.len() } else { i + 1 };
        for &e in &cuts[i..n] {
            let r = TextRange::from_to(tu(s as u32), tu(e as u32));
            let at = |what: &str, m: String| format!("{} at {}..{}: {}", what, s, e, m);
            if let Some(r) = guarded(|| Ok(file.extend_selection(r))).map_err(|m| at("extending", m))? {
                b.range("extending", r)?;
            }
            let ids = guarded(|| Ok(file.context_actions(r))).map_err(|m| at("actions", m))?;
            for id in ids {
                let e = guarded(|| Ok(file.apply_context_action(r, id))).map_err(|m| at(id, m))?;
                b.hash ^= apply(id, e)?;
            }
            for id in &["", "Swap", "Add impl", "Extract rule"] {
                guarded(|| Ok(file.apply_context_action(r, id))).map_err(|m| at(id, m))?;
            }
        }
    }
    Ok(b.hash)
}

fn judge(lang: &str, text: &str, selections: bool) -> Result<u64, String> {
    let mut b = Bounds { text, hash: 1 };
    let places: Vec<TextUnit> = char_cuts(text).into_iter().map(|o| tu(o as u32)).collect();
    if lang == "rust" {
        let file = RustEditorFile::parse(text);
        let mut h = common(text, &file, selections)?;
        for o in places {
            let at = |what: &str, m: String| format!("{} at {:?}: {}", what, o, m);
            h = fnv_mix(h, guarded(|| Ok(file.breadcrumbs(o))).map_err(|m| at("breadcrumbs", m))?.len() as u64);
            guarded(|| Ok(file.after_space_typed(o))).map_err(|m| at("typing a space", m))?;
            let e = guarded(|| Ok(file.expand(o))).map_err(|m| at("expanding", m))?;
            if let Some(e) = e {
                guarded(|| Ok(e.apply(file.file().text()).to_string())).map_err(|m| at("applying the expansion", m))?;
            }
        }
        Ok(h)
    } else {
        let file = FileWithAnalysis::parse(text);
        let h = common(text, &file, selections)?;
        for o in places {
            let at = |what: &str, m: String| format!("{} at {:?}: {}", what, o, m);
            if let Some(r) = guarded(|| Ok(file.resolve_reference(o))).map_err(|m| at("go to definition", m))? {
                b.range("go to definition", r)?;
            }
            for r in guarded(|| Ok(file.find_usages(o))).map_err(|m| at("find usages", m))? {
                b.range("find usages", r)?;
            }
            guarded(|| Ok(file.test_at_offset(o))).map_err(|m| at("test", m))?;
        }
        guarded(|| Ok(file.analyse(|a| fall_gen::generate(a)).is_ok())).map_err(|m| format!("generator: {}", m))?;
        Ok(fnv_mix(h, b.hash))
    }
}

fn one(lang: &str, text: &str, selections: bool, ctx: &mut Ctx) {
    ctx.state();
    ctx.check(&|| format!("{}: {:?}", lang, text), || judge(lang, text, selections));
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    let rust = texts::shipped("rust");
    let extra: Vec<String> = [
        "fn f() { x.pd$ foo(1).bar.pd$ } struct A<T>; fn g() { let y = z.pd$; a.pd; if b { c.pd$ } }",
        "use a::b::é; struct S<'a, T: X>(u8); impl A for B { fn f(x: u8, y: u8) { let } }",
        "é.pd$ é€ x $ $$ let  let é",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    res.extend(texts::families(
        &rust,
        &extra,
        Depth { short: tier.pick(1, 2), long: tier.pick(2, 3), sample: tier.pick(400, 1000), all_pieces: tier.pick(false, true) },
        Arc::new(|s, text, ctx| one(s.name, text, text.len() < 30, ctx)),
    ));
    let mut typing = mcparse::langs::all().into_iter().find(|s| s.name == "rust").unwrap();
    typing.samples = Vec::new();
    typing.pieces = vec!["let ", " ", "x", ".pd", "$", ";", "é", "€", "{", "}", "\n"];
    typing.core = vec![".pd$", "x", ";", "é"];
    typing.frames = vec![("", ""), ("fn f() { ", "}")];
    for mut f in texts::families(
        &Arc::new(typing),
        &[],
        Depth { short: tier.pick(4, 5), long: tier.pick(5, 6), sample: 0, all_pieces: false },
        Arc::new(|s, text, ctx| one(s.name, text, false, ctx)),
    ) {
        if f.size > 0 {
            f.name = format!("typing-{}", f.name);
            res.push(f);
        }
    }
    let fall = texts::shipped("fall");
    let extra: Vec<String> = [
        "tokenizer { t r\"t\" k 'k' u } rule a(x) { <b x t> 'k' zz <eof> <zz> } rule b(p, q) { <a p> q } ast { node a { t t x b y c.text z z? k k* k.k* } class b { a } class c { } trait tr { q a* r t.text } node z: tr, ur, { } }",
        "tokenizer { w r\"w\" 'p' } test r\"a\" rule a { <enter 'c' b> <is_in 'd'> <is_in> <not> } verbatim r\"x\" test r\"c\" rule { }",
        "#[pratt] rule e { x | y | z | w } #[bin(1)] pub rule x { e '+' e } #[atom] pub rule y { t } #[prefix(1)] pub rule z { '-' e } #[postfix, replaces, cached] pub rule w { e 't' } tokenizer { t r\"1\" p '+' m '-' }",
        "#[replaces] rule a { <commit> } #[cached] rule b { a } #[type(q)] pub rule c { <prev_is b> <prev_is c> <inject a b> <layer a> } tokenizer { a '' b r\"(\" }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    res.extend(texts::families(
        &fall,
        &extra,
        Depth { short: 2, long: tier.pick(3, 4), sample: tier.pick(400, 1000), all_pieces: tier.pick(false, true) },
        Arc::new(|s, text, ctx| one(s.name, text, text.len() < 40, ctx)),
    ));
    for s in &[&rust, &fall] {
        res.push(texts::stretched(s, tier.pick(40, 80), tier.pick(128, 256), Arc::new(|s, text, ctx| one(s.name, text, text.len() < 30, ctx))));
    }
    // Grammars that are wrong in one or two ways.
    let parts: Vec<&'static str> = vec![
        "rule a { b }", "pub rule b { a? }", "rule a(x) { x y }", "#[atom] rule", "#[bin(x)] rule a", "#[pratt] pub rule p { a | b }",
        "#[pratt] rule p", "#[replaces] rule c { }", "#[cached] pub rule d", "tokenizer { a r\"a\" }", "tokenizer { 'x' }", "tokenizer { a",
        "tokenizer { a ' }", "tokenizer { x r#\"#\"# 'f' }", "ast { node", "ast { node a { m } }", "ast { class { a } }", "ast { trait t { m a?. x } }",
        "ast { node b: t { m a* } }", "verbatim", "verbatim 'x'", "test", "test r\"x", "rule e { <a> < > <commit> <b 'c }", "pub rule { <enter 'x'> <prev_is> }",
        "rule f { <is_in> } rule f", "#[type] pub rule g { <layer> }", "#[] rule h { <not <eof>?>* }", "#[a(b] rule", "rule i( { x }", "#[bin(1), pratt] pub rule j { j j j }",
        "rule k { <any }",
    ];
    let n = tier.pick(2, 3);
    let size = n_strings(parts.len() as u64, n);
    res.push(Family::new(
        "parts",
        format!("all sequences of up to {} of {} parts of grammars", n, parts.len()),
        size,
        move |i, ctx| {
            let text: Vec<&str> = nth_string(parts.len() as u64, i).into_iter().map(|d| parts[d]).collect();
            one("fall", &text.join(" "), false, ctx);
            one("fall", &format!("tokenizer {{ a r\"a\" b 'b' }} {}", text.join("\n")), false, ctx);
        },
    ));
    res
}
