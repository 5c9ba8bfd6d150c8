//! Tokenization against a brute-force reading of the rules.

use std::sync::Arc;

use mccore::util::{n_strings, nth_string, Radix};
use mccore::{Family, Tier};

use crate::gram::{texts, Gram};
use crate::lang::*;
use crate::langs;
use crate::spec;
use crate::stretch::sizes;
use crate::tokens;

/// A token rule: the pattern, its length by definition on a text, and a
/// custom recognizer.
#[derive(Clone, Copy)]
struct Pat {
    re: &'static str,
    len: fn(&str) -> Option<usize>,
    custom: Option<fn(&str) -> Option<usize>>,
}

fn run(s: &str, ok: &dyn Fn(char) -> bool) -> Option<usize> {
    let n: usize = s.chars().take_while(|c| ok(*c)).map(|c| c.len_utf8()).sum();
    if n > 0 { Some(n) } else { None }
}

fn lit(s: &str, l: &str) -> Option<usize> {
    if s.starts_with(l) { Some(l.len()) } else { None }
}

/// Up to the next `b`.
fn until_b(s: &str) -> Option<usize> {
    s[1..].find('b').map(|i| i + 2)
}

fn first_two(s: &str) -> Option<usize> {
    s.char_indices().nth(2).map(|(i, _)| i)
}

/// Shorter than what the pattern matches.
fn one(_: &str) -> Option<usize> {
    Some(1)
}

fn menu() -> Vec<Pat> {
    let p = |re, len| Pat { re, len, custom: None };
    vec![
        p("a", |s| lit(s, "a")),
        p("b", |s| lit(s, "b")),
        p("ab", |s| lit(s, "ab")),
        p("a+", |s| run(s, &|c| c == 'a')),
        p("[ab]+", |s| run(s, &|c| c == 'a' || c == 'b')),
        p("aa|a", |s| lit(s, "aa").or_else(|| lit(s, "a"))),
        p("ba?", |s| lit(s, "ba").or_else(|| lit(s, "b"))),
        // The leftmost alternative decides.
        p("a|ab", |s| lit(s, "a")),
        p("aba", |s| lit(s, "aba")),
        p("é", |s| lit(s, "é")),
        p("[^b]", |s| s.chars().next().filter(|c| *c != 'b').map(|c| c.len_utf8())),
        p(r"\s+", |s| run(s, &char::is_whitespace)),
        p("a[^ab]*b", |s| {
            let rest = s.strip_prefix('a')?;
            let n = run(rest, &|c| c != 'a' && c != 'b').unwrap_or(0);
            if rest[n..].starts_with('b') { Some(n + 2) } else { None }
        }),
        Pat { re: "a", len: |s| lit(s, "a"), custom: Some(until_b) },
        Pat { re: "b", len: |s| lit(s, "b"), custom: Some(first_two) },
        Pat { re: "aa", len: |s| lit(s, "aa"), custom: Some(one) },
    ]
}

thread_local! {
    static WORDS: std::cell::RefCell<Vec<&'static str>> = Default::default();
}

/// The token at the start of a text.
fn token(rules: &[Pat], s: &str) -> Option<(u32, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for (i, r) in rules.iter().enumerate() {
        if let Some(l) = (r.len)(s) {
            if best.map_or(true, |(_, b)| l > b) {
                best = Some((i, l));
            }
        }
    }
    let (i, l) = best?;
    let l = match rules[i].custom {
        Some(f) => f(s)?,
        None => l,
    };
    Some((A + i as u32, l))
}

fn tokens(rules: &[Pat], text: &str) -> Vec<(u32, usize, usize)> {
    let mut res = Vec::new();
    let mut at = 0;
    while at < text.len() {
        match token(rules, &text[at..]) {
            Some((t, l)) => {
                res.push((t, at, l));
                at += l;
            }
            None => {
                let start = at;
                loop {
                    at += text[at..].chars().next().unwrap().len_utf8();
                    if at == text.len() || token(rules, &text[at..]).is_some() {
                        break;
                    }
                }
                res.push((0, start, at - start));
            }
        }
    }
    res
}

/// `ty`: the type of each rule.
fn judge(g: &Gram, rules: &[Pat], ty: &dyn Fn(u32) -> u32, text: &str, ctx: &mut mccore::Ctx) {
    ctx.state();
    let mut want = tokens(rules, text);
    for t in want.iter_mut().filter(|t| t.0 != 0) {
        t.0 = ty(t.0 - A);
    }
    ctx.check(&|| format!("{:?} on {:?}", rules.iter().map(|p| (p.re, p.custom.is_some())).collect::<Vec<_>>(), text), || {
        let file = g.lang.parse(text.to_owned());
        crate::shape::check_shape(&file, text)?;
        let got: Vec<(u32, usize, usize)> = file
            .root()
            .children()
            .map(|c| (c.ty().0, c.range().start().utf8_len() as usize, c.range().len().utf8_len() as usize))
            .collect();
        if got != want {
            return Err(format!("expected tokens (type, start, length) {:?}\n  got {:?}", want, got));
        }
        Ok(spec::flatten_file(&file, &|_| true).iter().fold(1, |h, &x| mccore::util::fnv_mix(h, x)))
    });
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    for n_rules in 1..=tier.pick(3, 4) {
        let menu = menu();
        let m = menu.len() as u64;
        let size = m.pow(n_rules);
        let texts = texts(&["a", "b", "é", " ", "?"], match n_rules { 1 | 2 => tier.pick(6, 7), 3 => tier.pick(4, 6), _ => 4 });
        res.push(Family::new(
            format!("{}-rules", n_rules),
            format!("all {} ordered choices of {} token rules from {} (literals, classes, repetitions, alternations, custom recognizers); {} texts", size, n_rules, m, texts.len()),
            size,
            move |i, ctx| {
                let mut k = i;
                let mut rules = Vec::new();
                for _ in 0..n_rules {
                    rules.push(menu[(k % m) as usize]);
                    k /= m;
                }
                let spec: Vec<_> = rules.iter().enumerate().map(|(i, r)| (A + i as u32, r.re, r.custom)).collect();
                let g = Gram::new(&Lexer::custom(&spec), vec![Rule::Pub(FILE, rep(E::Any))]);
                for text in &texts {
                    judge(&g, &rules, &|i| A + i, text, ctx);
                }
            },
        ));
    }
    // Long tokens, many tokens.
    {
        let menu = menu();
        let m = menu.len();
        let units = ["a", "b", "é", " ", "?", "ab", "aé", "a?"];
        let sizes = sizes(tier.pick(24, 80), tier.pick(4096, 16384));
        let k = sizes.len();
        res.push(Family::new(
            "stretched",
            format!("all {} pairs of token rules; {} pieces repeated each of {} numbers of times up to {}, alone and before `b`", m * m, units.len(), k, sizes[k - 1]),
            (m * m * k) as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let rules = vec![menu[r.take(m)], menu[r.take(m)]];
                let spec: Vec<_> = rules.iter().enumerate().map(|(i, r)| (A + i as u32, r.re, r.custom)).collect();
                let g = Gram::new(&Lexer::custom(&spec), vec![Rule::Pub(FILE, rep(E::Any))]);
                let n = sizes[r.0 as usize];
                for unit in &units {
                    for text in vec![unit.repeat(n), unit.repeat(n) + "b"] {
                        if unit.len() * n < 300 || *unit != "?" {
                            judge(&g, &rules, &|i| A + i, &text, ctx);
                        }
                    }
                }
            },
        ));
    }
    // Many rules.
    {
        let top = tier.pick(140, 300);
        res.push(Family::new(
            "many-rules",
            format!("up to {} token rules: longer and longer words in four orders, with ties", top),
            top as u64 * 4,
            move |i, ctx| {
                let (n, order) = (i as usize / 4 + 1, i % 4);
                let word = |k: usize| match order {
                    0 => k + 1,
                    1 => n - k,
                    2 => (k * 7 % n) / 2 + 1,
                    _ => if k % 2 == 0 { k / 2 + 1 } else { n - k / 2 },
                };
                let rules: Vec<Pat> = (0..n)
                    .map(|k| WORDS.with(|w| {
                        let mut w = w.borrow_mut();
                        while w.len() <= word(k) {
                            let next = "a".repeat(w.len());
                            w.push(Box::leak(next.into_boxed_str()));
                        }
                        Pat { re: w[word(k)], len: |_| None, custom: None }
                    }))
                    .collect();
                // rules share types
                let ty = |i: u32| A + i % 12;
                let spec: Vec<_> = rules.iter().enumerate().map(|(i, r)| (ty(i as u32), r.re, r.custom)).collect();
                let g = Gram::new(&Lexer::custom(&spec), vec![Rule::Pub(FILE, rep(E::Any))]);
                for len in (0..n + 3).chain(Some(2 * n + 1)) {
                    let text = "a".repeat(len);
                    // the longest word, the first of its rules
                    let mut want = Vec::new();
                    let mut at = 0;
                    while at < len {
                        let best = (0..n).filter(|&k| word(k) <= len - at).max_by_key(|&k| (word(k), n - k));
                        match best {
                            Some(k) => {
                                want.push((ty(k as u32), at, word(k)));
                                at += word(k);
                            }
                            None => {
                                want.push((0, at, len - at));
                                at = len;
                            }
                        }
                    }
                    ctx.state();
                    ctx.check(&|| format!("{} words in order {} on {} characters", n, order, len), || {
                        let file = g.lang.parse(text.clone());
                        let got: Vec<(u32, usize, usize)> = file
                            .root()
                            .children()
                            .map(|c| (c.ty().0, c.range().start().utf8_len() as usize, c.range().len().utf8_len() as usize))
                            .collect();
                        if got != want {
                            return Err(format!("expected {:?}, got {:?}", want, got));
                        }
                        Ok(spec::flatten_file(&file, &|_| true).iter().fold(1, |h, &x| mccore::util::fnv_mix(h, x)))
                    });
                }
            },
        ));
    }
    // Shipped languages.
    for s in langs::all() {
        if tokens::rules(s.name).is_empty() {
            continue;
        }
        let s = Arc::new(s);
        let sets: Vec<(&'static str, Vec<&'static str>, u32)> = match s.name {
            "rust" => vec![
                ("quotes", vec!["'", "\"", "\\", "r", "#", "a", "{", "é", "\n"], tier.pick(5, 6)),
                ("comments", vec!["/", "*", "a", "\n", "é", "="], tier.pick(6, 7)),
                ("operators", vec!["=", "<", ">", "!", "&", "|", "-", "+", ".", ":", "*", "^", "%"], tier.pick(3, 4)),
                ("words", vec![
                    "as", "crate", "fn", "let", "if", "in", "impl", "for", "ref", "return", "true", "false", "self", "where", "union", "x", "_",
                    "1", "é", " ", "r", "\"", "'", "#",
                ], 3),
            ],
            "fall" => vec![
                ("quotes", vec!["'", "\"", "\\", "r", "#", "a", "é", "\n", "/"], tier.pick(5, 6)),
                ("words", vec!["rule", "pub", "x", "_", "1", "é", " ", "r", "\"", "'", "#", "{", "<", "|", "//"], tier.pick(3, 4)),
            ],
            "json" => vec![("all", vec!["\"", "\\", "a", "null", "true", "1", "{", "[", ":", ",", " ", "é"], tier.pick(4, 5))],
            "bnf" => vec![("all", vec!["'", "-", ">", "|", "a", "1", "_", " ", "é", "?"], tier.pick(5, 6))],
            "arith" => vec![("all", vec!["1", "+", "-", "*", "/", "!", "(", ")", " ", "?"], tier.pick(4, 5))],
            _ => vec![("all", vec!["a", "1", "(", ")", " ", "?", "é", "_"], tier.pick(5, 6))],
        };
        for (set, pieces, n) in sets {
            let s = s.clone();
            let k = pieces.len() as u64;
            let size = n_strings(k, n);
            let block = 512;
            res.push(Family::new(
                format!("{}-{}", s.name, set),
                format!("all sequences of up to {} of {} pieces, on their own and between other text", n, k),
                (size + block - 1) / block,
                move |i, ctx| {
                    let lang = (s.lang)();
                    let rules = tokens::rules(s.name);
                    for j in i * block..((i + 1) * block).min(size) {
                        let mut piece = String::new();
                        for d in nth_string(k, j) {
                            piece.push_str(pieces[d]);
                        }
                        for text in vec![format!("a {} b\" '*/", piece), piece] {
                            ctx.state();
                            ctx.check(&|| format!("{}: {:?}", s.name, text), || {
                                let file = lang.parse(text.clone());
                                crate::shape::check_shape(&file, &text)?;
                                tokens::check(&file, &text, &rules)
                            });
                        }
                    }
                },
            ));
        }
        {
            let s = s.clone();
            let runs = crate::c04::runs(s.name);
            let sizes = sizes(tier.pick(70, 140), tier.pick(1024, 4096));
            res.push(Family::new(
                format!("{}-stretched", s.name),
                format!("{} runs of pieces of each of {} sizes up to {}", runs.len(), sizes.len(), sizes[sizes.len() - 1]),
                (runs.len() * sizes.len()) as u64,
                move |i, ctx| {
                    let mut r = Radix(i);
                    let (open, unit, close) = runs[r.take(runs.len())];
                    let n = sizes[r.0 as usize];
                    let lang = (s.lang)();
                    let rules = tokens::rules(s.name);
                    for text in vec![format!("{}{}{}", open, unit.repeat(n), close), format!("a {}{}{} b", open, unit.repeat(n), close)] {
                        ctx.state();
                        ctx.check(&|| format!("{}: {:?}", s.name, text), || {
                            let file = lang.parse(text.clone());
                            tokens::check(&file, &text, &rules)
                        });
                    }
                },
            ));
        }
        let sample = s.clone();
        res.push(Family::new(
            format!("{}-samples", s.name),
            format!("{} samples and all their suffixes and prefixes", s.samples.len()),
            s.samples.len() as u64,
            move |i, ctx| {
                let s = &sample;
                let lang = (s.lang)();
                let rules = tokens::rules(s.name);
                let sample = &s.samples[i as usize];
                for c in crate::hist::char_cuts(sample) {
                    for text in &[&sample[..c], &sample[c..]] {
                        ctx.state();
                        ctx.check(&|| format!("{}: {:?}", s.name, text), || {
                            let file = lang.parse((*text).to_owned());
                            tokens::check(&file, text, &rules)
                        });
                    }
                }
            },
        ));
    }
    res
}
