//! Texts that editor services are run on.

use std::sync::Arc;

use mccore::util::{n_strings, nth_string, Radix};
use mccore::{Ctx, Family};
use mcparse::hist::{apply, char_cuts};
use mcparse::langs;
pub use mcparse::langs::Shipped;

pub type Each = Arc<dyn Fn(&Shipped, &str, &mut Ctx) + Send + Sync>;

/// How far texts are explored.
#[derive(Clone, Copy)]
pub struct Depth {
    /// Length of sequences of all pieces.
    pub short: u32,
    /// Length of sequences of the most telling pieces.
    pub long: u32,
    /// Longest sample that is damaged.
    pub sample: usize,
    /// Replace tokens by all pieces, not only by the most telling ones.
    pub all_pieces: bool,
}

pub fn shipped(name: &str) -> Arc<Shipped> {
    Arc::new(langs::all().into_iter().find(|s| s.name == name).unwrap())
}

/// The samples themselves, texts composed of pieces, and damaged samples.
pub fn families(s: &Arc<Shipped>, extra: &[String], d: Depth, each: Each) -> Vec<Family> {
    let mut res = Vec::new();
    for &core in &[false, true] {
        let pieces = if core { s.core.clone() } else { s.pieces.clone() };
        let n = if core { d.long } else { d.short };
        let n_texts = n_strings(pieces.len() as u64, n);
        let block = 64;
        let n_blocks = (n_texts + block - 1) / block;
        let (s, each) = (s.clone(), each.clone());
        res.push(Family::new(
            format!("{}-{}", s.name, if core { "long" } else { "short" }),
            format!("texts: all sequences of up to {} of {} pieces, in {} places", n, pieces.len(), s.frames.len()),
            n_blocks * s.frames.len() as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let (before, after) = s.frames[r.take(s.frames.len())];
                for k in r.0 * block..((r.0 + 1) * block).min(n_texts) {
                    let mut text = before.to_owned();
                    for d in nth_string(pieces.len() as u64, k) {
                        text.push_str(pieces[d]);
                    }
                    text.push_str(after);
                    each(&s, &text, ctx);
                }
            },
        ));
    }
    let samples: Arc<Vec<String>> =
        Arc::new(s.samples.iter().chain(extra).filter(|t| t.len() <= d.sample).cloned().collect());
    {
        let whole: Vec<String> = s.samples.iter().chain(extra).cloned().collect();
        let (s, each) = (s.clone(), each.clone());
        res.push(Family::new(
            format!("{}-samples", s.name),
            format!("texts: {} samples", whole.len()),
            whole.len() as u64,
            move |i, ctx| each(&s, &whole[i as usize], ctx),
        ));
    }
    let places: Vec<(usize, usize)> = samples
        .iter()
        .enumerate()
        .flat_map(|(i, t)| (0..langs::token_cuts(&(s.lang)().parse(t.clone())).len()).map(move |w| (i, w)))
        .collect();
    let s = s.clone();
    res.push(Family::new(
        format!("{}-damaged", s.name),
        format!(
            "texts: {} samples of up to {} bytes with every truncation, every removal of one or two adjacent tokens, every token doubled, exchanged with the next, preceded or replaced by one of {} pieces",
            samples.len(), d.sample, if d.all_pieces { s.pieces.len() } else { s.core.len() }
        ),
        places.len() as u64,
        move |i, ctx| {
            let (i, w) = places[i as usize];
            let sample = &samples[i];
            let file = (s.lang)().parse(sample.clone());
            if w == 0 {
                for c in char_cuts(sample) {
                    each(&s, &sample[..c], ctx);
                    each(&s, &sample[c..], ctx);
                }
                return;
            }
            let cuts = langs::token_cuts(&file);
            let mut changes = Vec::new();
            let (a, b) = (cuts[w - 1], cuts[w]);
            let tok = &sample[a..b];
            changes.push((a, b, String::new()));
            changes.push((b, b, tok.to_owned()));
            if w + 1 < cuts.len() {
                let c = cuts[w + 1];
                changes.push((a, c, String::new()));
                changes.push((a, c, format!("{}{}", &sample[b..c], tok)));
            }
            let pieces = if d.all_pieces { &s.pieces } else { &s.core };
            for p in pieces {
                changes.push((a, b, (*p).to_owned()));
                changes.push((a, a, (*p).to_owned()));
            }
            for c in changes {
                each(&s, &apply(sample, &vec![c]), ctx);
            }
        },
    ));
    res
}

/// A text in which something is repeated: before, the unit ("@" is its number), between, what
/// closes, behind.
pub type Shape = (&'static str, &'static str, &'static str, &'static str, &'static str);

fn shapes(name: &str) -> &'static [Shape] {
    match name {
        "rust" => &[
            ("", "struct S@; ", "", "", ""),
            ("", "fn f@() {}\n\n", "", "", ""),
            ("", "mod m@ { ", "struct S;", " }", ""),
            ("", "impl X for Y@ {} ", "", "", ""),
            ("", "// é\n", "struct S;", "", ""),
            ("", "\n", "struct S;", "", ""),
            ("fn f(", "x: u8, ", "y: u8", "", ") {}"),
            ("fn f() { g(", "x, ", "y", "", "); }"),
            ("fn f() { ", "g(", "x, y", ")", "; }"),
            ("fn f() { ", "{ ", "let x", " }", " }"),
            ("fn f() { ", "let x = 1;\n", "let ", "", "}"),
            ("fn f() { x", ".pd", ".pd$", "", " }"),
            ("fn f() { x", "(1)", ".pd$", "", " }"),
            ("fn f() { ", "if x { ", "let y ", " }", "\n"),
            ("fn f() { let x = ", "(", "1", ")", "; }"),
            ("enum E { ", "A@, ", "", "", "}"),
            ("use a::{", "b, ", "c", "", "};"),
            ("use ", "a::", "b", "", ";"),
            ("use ", "a::{", "b", "}", ";"),
            ("struct S<", "T, ", "U", "", ">;"),
            ("struct S { ", "x: u8, ", "", "", "}"),
            ("struct S", "", "", "", ";"),
            ("impl S { ", "fn f@() {} ", "", "", "}"),
            ("type T = ", "F<", "u8, u8", ">", ";"),
            ("#[a(", "b, ", "c", "", ")] struct S;"),
            ("fn f() { match x { ", "A@ => 1, ", "_ => 2", "", " } }"),
            ("struct S;", " ", "", "", ""),
            ("fn f() { \"", "é", "", "", "\" }"),
        ],
        _ => &[
            ("", "rule r@ { r@ } ", "", "", ""),
            ("", "pub rule r@ { r1 }\n\n", "", "", ""),
            ("", "rule r { r }\n", "", "", ""),
            ("", "// é\n", "rule a { a }", "", ""),
            ("", "\n", "rule a { a }", "", ""),
            ("", "test r\"x\"\n", "", "", ""),
            ("rule a { ", "b | ", "c", "", " }"),
            ("rule a { ", "a ", "c", "", "} rule c { }"),
            ("rule a { ", "{ b | ", "c", " }", " }"),
            ("rule a { ", "<not ", "a", ">", " }"),
            ("rule a { ", "<b|", "a", ">", " }"),
            ("rule a { ", "a?", "", "", " }"),
            ("rule a { a", "?", "", "", " }"),
            ("rule a { a", "*?", "", "", " }"),
            ("rule a { <b ", "a ", "", "", "> } rule b(x) { x }"),
            ("rule a(", "x@, ", "y", "", ") { x1 y y0 }"),
            ("rule a(", "x, ", "y", "", ") { x y <a x y> }"),
            ("rule a { ", "b|c  |  ", "", "", "}"),
            ("rule a { ", "'k' ", "k", "", "} tokenizer { k 'k' }"),
            ("rule a { k3 k1 'k2' } tokenizer { ", "k@ 'k@' ", "", "", "}"),
            ("rule a { 'k' } tokenizer { ", "k 'k' ", "", "", "}"),
            ("#[", "x, ", "y", "", "] rule a { a }"),
            ("#[pratt] rule e { ", "x@ | ", "y", "", "} #[atom] rule x0 { e } #[atom] rule y { x0 }"),
            ("ast { ", "node n@ { a a } ", "", "", "} pub rule n0 { }"),
            ("ast { node a: ", "b, ", "c", "", "{ x a } } pub rule a { }"),
            ("pub rule a { } ast { node a { ", "x@ a ", "", "", "} }"),
            ("pub rule a { } ast { class c { ", "a ", "", "", "} }"),
            ("rule a { ", "<enter 'c@' ", "<is_in 'c1'>", ">", "}"),
            ("rule a { <prev_is ", "a ", "", "", "> }"),
            ("verbatim r\"", "é", "", "", "\" rule a { a }"),
            ("rule a { a } ", "} ", "", "", ""),
        ],
    }
}

/// Texts with something repeated.
pub fn stretched(s: &Arc<Shipped>, all: usize, top: usize, each: Each) -> Family {
    let sizes = mcparse::stretch::sizes(all, top);
    let shapes = shapes(s.name);
    let s = s.clone();
    let k = sizes.len();
    Family::new(
        format!("{}-stretched", s.name),
        format!("texts: {} shapes stretched to each of {} sizes up to {}", shapes.len(), k, sizes[k - 1]),
        (shapes.len() * k) as u64,
        move |i, ctx| {
            let (open, unit, middle, close, tail) = shapes[i as usize % shapes.len()];
            let n = sizes[k - 1 - i as usize / shapes.len()];
            let units: String = (0..n).map(|i| unit.replace("@", &i.to_string())).collect();
            each(&s, &format!("{}{}{}{}{}", open, units, middle, close.repeat(n), tail), ctx);
        },
    )
}
