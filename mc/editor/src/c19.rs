//! Names and diagnostics of grammars.

use std::sync::Arc;

use fall_editor::{EditorFileImpl, Severity};
use fall_tree::{tu, TextRange};
use lang_fall::FileWithAnalysis;
use mccore::util::{fnv, fnv_mix, Radix};
use mccore::{Ctx, Family, Tier};
use mcparse::hist::char_cuts;
use mcparse::tree::M;

use crate::names::{Diag, Names};
use crate::texts::{self, Depth};

fn pair(r: TextRange) -> (usize, usize) {
    (r.start().utf8_len() as usize, r.end().utf8_len() as usize)
}

pub fn diagnostics(file: &FileWithAnalysis) -> Vec<Diag> {
    file.diagnostics()
        .into_iter()
        .map(|d| {
            let (s, e) = pair(d.range);
            let sev = match d.severity {
                Severity::Error => 0,
                Severity::Warning => 1,
            };
            (sev, s, e, d.message)
        })
        .collect()
}

pub fn judge(text: &str) -> Result<u64, String> {
    let file = FileWithAnalysis::parse(text);
    let m = M::new(file.file());
    let n = Names::new(&m);
    let mut h = 1;
    let got = diagnostics(&file);
    let mut sorted = got.clone();
    sorted.sort_by_key(|d| (d.0, d.1, d.2));
    if sorted != got {
        return Err(format!("diagnostics not in order: {:?}", got));
    }
    sorted.sort();
    let want = n.diagnostics();
    if sorted != want {
        let missing: Vec<_> = want.iter().filter(|d| !sorted.contains(d)).collect();
        let spare: Vec<_> = sorted.iter().filter(|d| !want.contains(d)).collect();
        return Err(format!("diagnostics: missing {:?}, spare {:?}, got {:?}", missing, spare, got));
    }
    for d in &got {
        h = fnv_mix(h, fnv(d.3.as_bytes()) ^ (d.1 * 1000 + d.2) as u64);
    }
    // Navigation.
    let mut edges = Vec::new();
    for o in char_cuts(text) {
        let at = tu(o as u32);
        let def = file.resolve_reference(at).map(pair);
        let want = n.definitions_at(o);
        if !want.contains(&def) {
            return Err(format!("definition at {}: {:?}, not one of {:?}", o, def, want));
        }
        let mut usages: Vec<_> = file.find_usages(at).into_iter().map(pair).collect();
        usages.sort();
        let wanted: Vec<_> = n
            .usages_at(o)
            .into_iter()
            .map(|mut u| {
                u.sort();
                u
            })
            .collect();
        if !wanted.contains(&usages) {
            return Err(format!("usages at {}: {:?}, not one of {:?}", o, usages, wanted));
        }
        h = fnv_mix(h, def.map_or(7, |d| d.0 as u64) + usages.len() as u64 * 1000);
        if let Some(d) = def {
            edges.push((o, d));
        }
    }
    // Converse: the usages of a definition include the reference it was
    // reached from, and each of them leads to the definition.
    for &(o, d) in &edges {
        // The place after the first character of a name belongs to it.
        let first = text[d.0..].chars().next().map_or(0, char::len_utf8);
        let usages: Vec<_> = file.find_usages(tu((d.0 + first) as u32)).into_iter().map(pair).collect();
        let direct = usages.iter().any(|u| u.0 <= o && o <= u.1);
        let by_name = m.leaves_at(0, o).iter().any(|&l| match m.enclosing(l, "METHOD_DEF") {
            Some(me) => usages.iter().any(|u| m.nodes[me].start <= u.0 && u.1 <= m.nodes[me].end),
            None => false,
        });
        if !direct && !by_name {
            return Err(format!("{} leads to {:?}, the usages of which are {:?}", o, d, usages));
        }
        for u in usages {
            let back = file.resolve_reference(tu(u.1 as u32)).map(pair);
            if back != Some(d) {
                return Err(format!("{:?} is a usage of {:?}, but leads to {:?}", u, d, back));
            }
        }
    }
    Ok(h)
}

fn one(text: &str, ctx: &mut Ctx) {
    ctx.state();
    ctx.check(&|| format!("fall: {:?}", text), || judge(text));
}

const TOKENIZERS: [&str; 8] = [
    "",
    "tokenizer { t r\"t\" }",
    "tokenizer { t 't' u 'u' x r\"x\" }",
    "tokenizer { t 't' }",
    "tokenizer { t r\"a\" t r\"b\" }",
    "tokenizer { a r\"x\" #[skip] ws r\"s\" }",
    "tokenizer { t 't' 'f' t }",
    "tokenizer { t 't' u 't' }",
];

const HEADS: [&str; 14] = [
    "rule a",
    "pub rule a",
    "rule b",
    "rule b(x)",
    "pub rule b(x, y)",
    "rule a(a)",
    "rule x(b, b)",
    "#[type(q)] pub rule c",
    "#[atom] pub rule c",
    "#[atom(1)] rule c",
    "#[bin(1)] pub rule c",
    "#[bin] rule c",
    "#[prefix] rule any",
    "#[pratt, postfix(7)] pub rule a",
];

const BODIES: [&str; 30] = [
    "{ }",
    "{ a }",
    "{ b }",
    "{ x t }",
    "{ 't' }",
    "{ <a> }",
    "{ <b a> }",
    "{ <b a x> }",
    "{ <any> <eof> <commit> }",
    "{ <any a> }",
    "{ <not a> }",
    "{ <not> }",
    "{ <layer a b> <with_skip a b> <inject a b> }",
    "{ <layer a> }",
    "{ <enter 'c' a> }",
    "{ <enter 'c'> }",
    "{ <exit c a> }",
    "{ <is_in 'c'> }",
    "{ <is_in 'c' a> }",
    "{ <is_in t> }",
    "{ <is_in> }",
    "{ <is_in 'c'> <is_in 'd'> <exit 'd' a> }",
    "{ <prev_is a b> }",
    "{ <prev_is {a} t> }",
    "{ <prev_is c> }",
    "{ c c }",
    "{ c a c }",
    "{ a | b? }",
    "{ <b <b a>*> }",
    "{ {<zz zz> | a*} }",
];

const ASTS: [&str; 3] = ["node n: k", "class n", "trait k"];

pub fn families(tier: Tier) -> Vec<Family> {
    let s = texts::shipped("fall");
    let extra: Vec<String> = [
        "tokenizer { t r\"t\" k 'k' } rule a(x) { <b x t> 'k' } rule b(p, q) { <a p> q } ast { node a { t t x b y c.text z z? k k } class b { a } class c { } trait tr { q a* r t.text } node z: tr, ur, { } }",
        "rule a { <enter 'c' b> <is_in 'd'> } rule b { <exit 'd' {a | b c}> <prev_is a b> } pub rule b { }",
        "#[pratt] rule e { x | y } #[bin(1)] rule x { e '+' e } #[atom] rule y { t } #[prefix(1)] rule z { '-' e } tokenizer { t r\"1\" p '+' m '-' }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let mut res = texts::families(
        &s,
        &extra,
        Depth { short: 2, long: tier.pick(4, 5), sample: tier.pick(300, 1000), all_pieces: true },
        Arc::new(|_, text, ctx| one(text, ctx)),
    );
    res.push(texts::stretched(&s, 30, tier.pick(64, 256), Arc::new(|_, text, ctx| one(text, ctx))));
    let tokenizers: Vec<&str> = TOKENIZERS.iter().cloned().step_by(tier.pick(2, 1)).collect();
    let (h, b, t) = (HEADS.len(), BODIES.len(), tokenizers.len());
    // Two rules with all heads and bodies.
    res.push(Family::new(
        "two-rules",
        format!("all pairs of rules with {} heads and {} bodies, after {} tokenizers", h, b, t),
        (h * h * b * t) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (h1, h2, b1, t) = (r.take(h), r.take(h), r.take(b), r.take(t));
            for b2 in 0..b {
                let text = format!("{} {} {} {} {}", tokenizers[t], HEADS[h1], BODIES[b1], HEADS[h2], BODIES[b2]);
                one(&text, ctx);
            }
        },
    ));
    // Three rules.
    let heads: Vec<&str> = [0, 2, 3, 5, 4, 10].iter().take(tier.pick(5, 6)).map(|&i| HEADS[i]).collect();
    let bodies: Vec<&str> = [0, 1, 2, 4, 6, 7, 3, 5, 14, 17, 22, 28, 29, 26].iter().take(tier.pick(6, 14)).map(|&i| BODIES[i]).collect();
    let (h, b) = (heads.len(), bodies.len());
    res.push(Family::new(
        "three-rules",
        format!("all triples of rules with {} heads and {} bodies, before 2 tokenizers", h, b),
        (h * h * h * b * b) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (h1, h2, h3, b1, b2) = (r.take(h), r.take(h), r.take(h), r.take(b), r.take(b));
            for t in &TOKENIZERS[2..4] {
                for b3 in 0..b {
                    let text = format!("{} {} {} {} {} {}\n{}", heads[h1], bodies[b1], heads[h2], bodies[b2], heads[h3], bodies[b3], t);
                    one(&text, ctx);
                }
            }
        },
    ));
    // Views.
    let selectors = ["n", "m", "a", "t", "k", "z", "n.text", "t.text", "t?.text", "a?", "n*", "m?", "'t'"];
    let names = ["n", "m", "t", "k"];
    let pairs = 3 * names.len() * selectors.len();
    res.push(Family::new(
        "views",
        format!("all pairs of views of {} kinds with {} names and {} selectors, and {} tokenizers", ASTS.len(), names.len(), selectors.len(), 4),
        (pairs * pairs) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let mut defs = Vec::new();
            for _ in 0..2 {
                let (kind, name, sel) = (r.take(3), names[r.take(4)], selectors[r.take(selectors.len())]);
                defs.push(match kind {
                    0 => format!("node {}: k, {} {{ m1 {} }}", name, names[(sel.len() + kind) % 4], sel),
                    1 => format!("class {} {{ {} }}", name, sel),
                    _ => format!("trait {} {{ m1 {} n n }}", name, sel),
                });
            }
            for t in &TOKENIZERS[1..5] {
                for last in &["node n { x t y k z a }", "class k { n t }"] {
                    one(&format!("{} rule a {{ }} ast {{ {} {} {} }}", t, defs[0], last, defs[1]), ctx);
                }
            }
        },
    ));
    res
}
