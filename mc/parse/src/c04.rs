//! Shipped languages parse every text.

use std::sync::Arc;

use fall_tree::File;
use mccore::util::{fnv_mix, nth_string, n_strings, Radix};
use mccore::{Ctx, Family, Tier};

use crate::hist::{apply, char_cuts, to_edit};
use crate::langs::{self, Shipped};
use crate::shape::check_shape;
use crate::spec;

/// The result of parsing is a file with the right root.
pub fn judge(s: &Shipped, file: &File, text: &str) -> Result<u64, String> {
    check_shape(file, text)?;
    let ty = file.root().ty();
    let name = file.language().node_type_info(ty).name;
    if name != s.file_type {
        return Err(format!("the root is {}", name));
    }
    Ok(spec::flatten_file(file, &|_| true).iter().fold(3, |h, &x| fnv_mix(h, x & 0xfffff | x >> 60 << 60)))
}

fn parse_one(s: &Shipped, text: &str, ctx: &mut Ctx) {
    let lang = (s.lang)();
    ctx.state();
    ctx.check(&|| format!("{}: parse {:?}", s.name, text), || {
        let file = lang.parse(text.to_owned());
        judge(s, &file, text)
    });
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    for s in langs::all() {
        let s = Arc::new(s);
        // All sequences of pieces.
        for &core in &[false, true] {
            let pieces = if core { s.core.clone() } else { s.pieces.clone() };
            let small = s.pieces.len() < 20;
            let n = match (small, core) {
                (true, false) => tier.pick(5, 6),
                (true, true) => tier.pick(6, 7),
                (false, false) => if s.name == "rust" { tier.pick(2, 3) } else { 3 },
                (false, true) => if s.name == "rust" { tier.pick(3, 4) } else { tier.pick(4, 5) },
            };
            let n_texts = n_strings(pieces.len() as u64, n);
            let block = 256;
            let n_blocks = (n_texts + block - 1) / block;
            let s = s.clone();
            res.push(Family::new(
                format!("{}-{}", s.name, if core { "long" } else { "short" }),
                format!("all sequences of up to {} of {} pieces, in {} places", n, pieces.len(), s.frames.len()),
                n_blocks * s.frames.len() as u64,
                move |i, ctx| {
                    let mut r = Radix(i);
                    let (before, after) = s.frames[r.take(s.frames.len())];
                    for k in r.0 * block..((r.0 + 1) * block).min(n_texts) {
                        let mut text = before.to_owned();
                        for d in nth_string(pieces.len() as u64, k) {
                            text.push_str(pieces[d]);
                        }
                        text.push_str(after);
                        parse_one(&s, &text, ctx);
                    }
                },
            ));
        }
        // Damaged samples.
        {
            let s = s.clone();
            let places: Vec<(usize, usize)> = s
                .samples
                .iter()
                .enumerate()
                .flat_map(|(i, t)| (0..langs::token_cuts(&(s.lang)().parse(t.clone())).len()).map(move |w| (i, w)))
                .collect();
            let long = tier.pick(300, 100_000);
            res.push(Family::new(
                format!("{}-damaged", s.name),
                format!("{} samples: every truncation, every removal of one or two adjacent tokens, every token doubled, exchanged with the next, or replaced by one of {} pieces (samples of more than {} bytes: one of {}), applied incrementally and from scratch", s.samples.len(), s.pieces.len(), long, s.core.len()),
                places.len() as u64,
                move |i, ctx| {
                    let (i, w) = places[i as usize];
                    let sample = &s.samples[i];
                    let file = (s.lang)().parse(sample.clone());
                    if w == 0 {
                        for c in char_cuts(sample) {
                            parse_one(&s, &sample[..c], ctx);
                            parse_one(&s, &sample[c..], ctx);
                        }
                        return;
                    }
                    let cuts = langs::token_cuts(&file);
                    let mut changes = Vec::new();
                    let (a, b) = (cuts[w - 1], cuts[w]);
                    let tok = &sample[a..b];
                    changes.push((a, b, String::new()));
                    changes.push((b, b, tok.to_owned()));
                    if w + 1 < cuts.len() {
                        let c = cuts[w + 1];
                        changes.push((a, c, String::new()));
                        changes.push((a, c, format!("{}{}", &sample[b..c], tok)));
                    }
                    let pieces = if sample.len() > long { &s.core } else { &s.pieces };
                    for p in pieces {
                        changes.push((a, b, (*p).to_owned()));
                        changes.push((a, a, (*p).to_owned()));
                    }
                    for (n, c) in changes.into_iter().enumerate() {
                        let change = vec![c];
                        let text = apply(sample, &change);
                        parse_one(&s, &text, ctx);
                        ctx.check(&|| format!("{}: edit {:?} of sample {}", s.name, change, i), || {
                            let edited = file.edit(&to_edit(sample, &change, (n % 2) as u32));
                            judge(&s, &edited, &text)
                        });
                    }
                },
            ));
        }
        // Tokens of hand written recognizers.
        if s.name == "fall" || s.name == "rust" {
            let s = s.clone();
            res.push(Family::new(
                format!("{}-delimiters", s.name),
                format!("raw strings and block comments with 0..40 opening and -1..2 missing or spare closing delimiters, in {} places", s.frames.len()),
                40,
                move |i, ctx| {
                    let n = i as usize;
                    for &(before, after) in &s.frames {
                        for m in n.saturating_sub(2)..n + 2 {
                            for body in &["", "x", "\"", "\"#", "é", "#\"##"] {
                                let text = format!("{}r{}\"{}\"{}{}", before, "#".repeat(n), body, "#".repeat(m), after);
                                parse_one(&s, &text, ctx);
                            }
                            for body in &["", "x", "*", "/", "é", "/*/"] {
                                let text = format!("{}{}{}{}{}", before, "/*".repeat(n), body, "*/".repeat(m), after);
                                parse_one(&s, &text, ctx);
                            }
                        }
                    }
                },
            ));
        }
        if s.name == "fall" || s.name == "rust" {
            let s = s.clone();
            let pieces: [&str; 7] = ["/*", "*/", "*", "/", "é", "\"", "r#"];
            let n = tier.pick(6, 7);
            let size = n_strings(7, n);
            let block = 256;
            res.push(Family::new(
                format!("{}-comments", s.name),
                format!("all sequences of up to {} of {:?}", n, pieces),
                (size + block - 1) / block,
                move |i, ctx| {
                    for j in i * block..((i + 1) * block).min(size) {
                        let mut text = String::new();
                        for d in nth_string(7, j) {
                            text.push_str(pieces[d]);
                        }
                        parse_one(&s, &text, ctx);
                    }
                },
            ));
        }
        res.extend(long_texts(&s, tier));
    }
    res
}


/// The first of all rotations.
fn rotated(unit: &str) -> String {
    char_cuts(unit).into_iter().map(|c| format!("{}{}", &unit[c..], &unit[..c])).min().unwrap()
}

/// The number of steps a parse took.
fn steps(file: &File) -> Option<u64> {
    file.metrics().get("parsing ticks")
}

/// A fragment repeated twice as often does not take many times as long.
fn pumped(s: &Shipped, before: &str, unit: &str, after: &str, ctx: &mut Ctx) {
    let lang = (s.lang)();
    let text = |n: usize| format!("{}{}{}", before, unit.repeat(n), after);
    let fine = std::cell::Cell::new(false);
    ctx.state();
    ctx.check(&|| format!("{}: repeat {:?}", s.name, rotated(unit)), || {
        let mut h = 0;
        let mut all = Vec::new();
        for &n in &[6, 12] {
            let t = text(n);
            let file = lang.parse(t.clone());
            h = fnv_mix(h, judge(s, &file, &t)?);
            all.push(steps(&file));
        }
        if let (Some(few), Some(many)) = (all[0], all[1]) {
            if many > 16 * (few + 100) {
                return Err(format!("{} steps for {:?}, {} for {:?}", few, text(6), many, text(12)));
            }
        }
        fine.set(true);
        Ok(h)
    });
    if fine.get() {
        parse_one(s, &text(40), ctx);
    }
}

/// Constructs that are repeated: before, the unit, behind.
pub fn runs(name: &str) -> Vec<(&'static str, &'static str, &'static str)> {
    let mut runs: Vec<(&'static str, &'static str, &'static str)> = vec![("", " ", ""), ("", "\n", ""), ("", "?", ""), ("", "é", ""), ("", "€", ""), ("", "x", ""), ("", "1", ""), ("x", " ", "x")];
    runs.extend(match name {
        "json" => vec![("\"", "é", "\""), ("\"", "é", ""), ("", "1,", "")],
        "arith" => vec![("", "1+", "1"), ("1", "!", "")],
        "sexp" => vec![("(", "x ", ")"), ("(", "é", ")")],
        "weird" => vec![("r\"", "é", "\"")],
        "bnf" => vec![("S -> '", "é", "'"), ("S -> ", "'t' ", "")],
        "fall" => vec![("\"", "é", "\""), ("'", "é", "'"), ("// ", "é", "\n"), ("rule a { ", "b ", "}"), ("rule a { ", "b | ", "}"), ("rule a { r\"", "é", "\"}")],
        _ => vec![
            ("/*", "é", "*/"), ("/*", "é", ""), ("/* ", "* ", "*/"), ("// ", "é", "\n"), ("\"", "é", "\""), ("\"", "é", ""), ("r#\"", "é", "\"#"), ("b\"", "\\\"", "\""), ("r", "#", "\""),
            ("fn f() { ", "x; ", "}"), ("fn f() { ", "x, ", "}"), ("use ", "x::", "x;"), ("#[", "x ", "]"),
        ],
    });
    runs
}

/// Long and deep texts.
pub fn long_texts(s: &Arc<Shipped>, tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // Long tokens and runs of tokens, around powers of two.
    {
        let s = s.clone();
        let runs = runs(s.name);
        let top = tier.pick(13, 14);
        res.push(Family::new(
            format!("{}-stretched", s.name),
            format!("{} runs of 2^k-3..2^k+3 equal pieces for k = 4..{}, after 0..2 other bytes, in {} places", runs.len(), top, s.frames.len()),
            (runs.len() * s.frames.len()) as u64 * (top - 3),
            move |i, ctx| {
                let mut r = Radix(i);
                let (open, unit, close) = runs[r.take(runs.len())];
                let (before, after) = s.frames[r.take(s.frames.len())];
                let k = r.0 + 4;
                for n in (1usize << k) - 3..=(1usize << k) + 3 {
                    for pad in 0..3 {
                        let text = format!("{}{}{}{}{}{}", before, " ".repeat(pad), open, unit.repeat(n / unit.len().max(1)), close, after);
                        parse_one(&s, &text, ctx);
                        if unit.len() == 1 {
                            break;
                        }
                    }
                }
            },
        ));
    }
    // Whatever is repeated.
    for &core in &[false, true] {
        let s = s.clone();
        let pieces = if core { s.core.clone() } else { s.pieces.clone() };
        let n = match (core, s.pieces.len() > 20, s.name) {
            (true, true, _) => tier.pick(2, 3),
            (true, false, _) => tier.pick(4, 5),
            (false, _, "rust") => tier.pick(1, 2),
            (false, _, _) => 2,
        };
        let n_sequences = n_strings(pieces.len() as u64, n);
        // Found with more pieces.
        let more: &[&str] = if core && s.name == "rust" { &["fn (<"] } else { &[] };
        let n_units = n_sequences + more.len() as u64;
        let block = 16;
        let n_blocks = (n_units + block - 1) / block;
        res.push(Family::new(
            format!("{}-pumped{}", s.name, if core { "-long" } else { "" }),
            format!("all sequences of up to {} of {} pieces, 6, 12 and, if it takes no longer than expected, 40 times, in {} places", n, pieces.len(), s.frames.len()),
            n_blocks * s.frames.len() as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let (before, after) = s.frames[r.take(s.frames.len())];
                for k in (r.0 * block).max(1)..((r.0 + 1) * block).min(n_units) {
                    let unit: String = if k < n_sequences {
                        nth_string(pieces.len() as u64, k).into_iter().map(|d| pieces[d]).collect()
                    } else {
                        more[(k - n_sequences) as usize].to_owned()
                    };
                    pumped(&s, before, &unit, "", ctx);
                    if !after.is_empty() {
                        pumped(&s, before, &unit, after, ctx);
                    }
                }
            },
        ));
    }
    // Nesting.
    {
        let s = s.clone();
        let depth = 200;
        let units: Vec<(&str, &str)> = match s.name {
            "json" => vec![("[", "]"), ("{\"a\":", "}"), ("[", ""), ("{\"a\":[", "")],
            "arith" => vec![("(", ")"), ("-", ""), ("1+", "1"), ("", "!"), ("(", "")],
            "sexp" => vec![("(", ")"), ("(", "")],
            "weird" => vec![("_4{", "}"), ("{", "")],
            "bnf" => vec![("S -> ", ""), ("S |", "")],
            "fall" => vec![("rule a {", "}"), ("{", "}"), ("<x ", ">"), ("rule a { <x {", "}> }"), ("x?", "*")],
            _ => vec![
                ("fn f() {", "}"), ("{", "}"), ("(", ")"), ("[", "]"), ("x(", ")"), ("mod m {", "}"), ("<x ", ">"), ("&", ""), ("-", ""),
                ("if x {", "} else {}"), ("match x { x => ", "}"), ("|x| ", ""), ("x + ", "1"), ("x!{", "}"),
                ("x<", ">"), ("x::<", ">"), ("<x as y>::", ""), ("fn(", ")"), ("for<'a> ", ""), ("[x; ", "]"), ("x.y(", ")"), ("S {x: ", "}"),
                ("&(", ")"), ("x..", ""), ("S(", ")"), ("x => {", "}"), ("#[a(", ")]"), ("impl x {", "}"), ("while x {", "}"), ("x | ", ""),
            ],
        };
        res.push(Family::new(
            format!("{}-nesting", s.name),
            format!("{} constructs nested up to {} times, in {} places", units.len(), depth, s.frames.len()),
            (units.len() * s.frames.len()) as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let (open, close) = units[r.take(units.len())];
                let (before, after) = s.frames[r.take(s.frames.len())];
                for d in (1..16).chain(vec![30, 60, 100, depth]) {
                    let text = format!("{}{}{}{}", before, open.repeat(d), close.repeat(d), after);
                    parse_one(&s, &text, ctx);
                }
            },
        ));
    }
    res
}
