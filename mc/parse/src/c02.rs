//! Incremental parsing against parsing from scratch.

use std::sync::Arc;

use mccore::util::Radix;
use mccore::{Family, Tier};

use crate::gram::*;
use crate::hist::*;
use crate::lang::*;
use crate::stretch::sizes;
use crate::langs;

fn enter(e: E) -> E {
    E::Enter(0, bx(e))
}
fn exit(e: E) -> E {
    E::Exit(0, bx(e))
}
fn cached(e: E) -> E {
    E::Cached(bx(e))
}

/// Uses of a cached rule `r1`, whose body is `e`.
fn surroundings() -> Vec<(&'static str, fn(E) -> Vec<Rule>)> {
    fn with(top: E, e: E) -> Vec<Rule> {
        vec![
            Rule::Pub(FILE, top),
            Rule::Private(cached(e)),
            Rule::Pub(N1, E::T(A)),
            Rule::Pub(N2, seq(vec![E::T(B), opt(E::R(2))])),
            Rule::Pub(N3, E::Any),
        ]
    }
    vec![
        ("list", |e| with(rep(or(vec![E::R(1), E::R(4)])), e)),
        ("followed", |e| with(rep(or(vec![seq(vec![E::R(1), E::T(C)]), E::R(1), E::R(4)])), e)),
        ("context", |e| {
            with(
                rep(or(vec![
                    seq(vec![E::T(C), enter(E::R(1))]),
                    E::R(1),
                    E::R(2),
                    E::R(4),
                ])),
                e,
            )
        }),
        ("context-left", |e| {
            with(enter(rep(or(vec![seq(vec![E::T(C), exit(E::R(1))]), E::R(1), E::R(4)]))), e)
        }),
        ("previous", |e| {
            with(rep(or(vec![E::R(1), seq(vec![E::Prev(vec![N1]), E::T(C)]), E::R(3), E::R(4)])), e)
        }),
        ("layer", |e| {
            with(
                rep(or(vec![
                    E::Layer(
                        bx(seq(vec![E::T(C), rep(seq(vec![not(E::T(C)), E::Any])), E::T(C)])),
                        bx(seq(vec![E::T(C), rep(or(vec![E::R(1), E::R(2)])), opt(E::R(4))])),
                    ),
                    E::R(1),
                    E::R(4),
                ])),
                e,
            )
        }),
        ("short-layer", |e| {
            with(
                rep(or(vec![
                    E::Layer(bx(seq(vec![E::Any, E::T(C)])), bx(E::R(1))),
                    E::R(1),
                    E::R(4),
                ])),
                e,
            )
        }),
        ("skip", |e| with(rep(E::Skip(bx(E::R(1)), bx(seq(vec![E::R(1), opt(E::T(B))])))), e)),
        ("lookahead", |e| {
            with(rep(or(vec![seq(vec![not(seq(vec![E::R(1), E::T(C)])), E::R(1)]), E::R(4)])), e)
        }),
        ("choice", |e| {
            with(
                rep(or(vec![
                    seq(vec![E::R(1), E::T(C)]),
                    E::Seq(vec![E::T(A), E::R(1)], Some(1)),
                    E::R(1),
                    E::R(4),
                ])),
                e,
            )
        }),
        ("nested", |e| {
            let mut v = with(rep(or(vec![E::R(5), E::R(1), E::R(4)])), e);
            v.push(Rule::Private(cached(seq(vec![E::T(C), rep(E::R(1)), opt(E::T(C))]))));
            v
        }),
        ("parameter", |e| {
            let mut v = with(
                rep(or(vec![
                    seq(vec![E::T(C), E::Call(5, vec![(0, E::T(B))])]),
                    E::Call(5, vec![(0, E::R(2))]),
                    E::R(4),
                ])),
                or(vec![seq(vec![e, E::Var(0)]), E::Var(0)]),
            );
            v.push(Rule::Private(rep(E::R(1))));
            v
        }),
        ("argument", |e| {
            let mut v = with(
                rep(or(vec![
                    E::Call(5, vec![(0, E::R(1))]),
                    E::Call(5, vec![(0, E::R(2))]),
                    E::R(4),
                ])),
                e,
            );
            v.push(Rule::Pub(N4, seq(vec![E::T(C), rep(E::Var(0)), E::Var(0)])));
            v
        }),
        ("replaceable", |e| {
            let mut v = with(
                rep(or(vec![E::R(5), E::R(4)])),
                or(vec![seq(vec![E::R(6), e]), E::R(6)]),
            );
            v.push(Rule::Replaceable(N4, seq(vec![E::T(A), opt(E::R(1))])));
            v.push(Rule::Replaces(N5, E::T(B)));
            v
        }),
        ("operators", |e| {
            let mut v = with(rep(or(vec![E::R(5), E::R(4)])), seq(vec![E::R(2), opt(e)]));
            v.push(Rule::Private(E::Pratt(Table {
                atoms: vec![E::R(1)],
                prefixes: vec![(N4, E::T(B), 1)],
                infixes: vec![(N5, E::T(C), 1, true), (N6, seq(vec![E::T(B), E::T(B)]), 2, false)],
            })));
            v
        }),
        ("cached-operators", |e| {
            let mut v = with(
                rep(or(vec![seq(vec![E::R(1), E::T(B)]), E::R(1), E::R(4)])),
                seq(vec![E::R(5), opt(e)]),
            );
            v.push(Rule::Private(E::Pratt(Table {
                atoms: vec![E::R(2)],
                prefixes: vec![(N4, E::T(B), 1)],
                infixes: vec![(N5, E::T(C), 1, true)],
            })));
            v
        }),
        ("injected", |e| {
            let mut v = with(
                rep(or(vec![
                    E::Inject(bx(opt(E::R(3))), bx(E::R(1))),
                    E::R(4),
                ])),
                E::R(5),
            );
            v.push(Rule::Pub(N4, seq(vec![E::T(A), e])));
            v
        }),
        ("injected-prefix", |e| {
            let mut v = with(
                rep(or(vec![
                    E::Inject(bx(opt(E::R(1))), bx(E::R(5))),
                    E::R(1),
                    E::R(4),
                ])),
                seq(vec![E::R(3), opt(e)]),
            );
            v.push(Rule::Pub(N4, E::T(C)));
            v
        }),
        ("under-a-rule", |e| {
            let mut v = with(rep(or(vec![E::R(5), E::R(1), E::R(4)])), e);
            v.push(Rule::Pub(N4, seq(vec![E::T(C), opt(E::R(1)), opt(E::R(1))])));
            v
        }),
    ]
}

fn leaves() -> Vec<E> {
    vec![
        E::T(A),
        E::R(2),
        E::R(3),
        E::Any,
        E::Eof,
        seq(vec![E::Prev(vec![N1]), E::T(B)]),
        seq(vec![E::IsIn(0), E::T(A)]),
        E::Ctx(X1, "ab"),
        E::Seq(vec![E::T(A), E::T(B)], Some(1)),
    ]
}

fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| (*s).to_owned()).collect()
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    let un: [fn(E) -> E; 4] = [opt, rep, not, enter];
    let bin: [fn(E, E) -> E; 2] = [seq2, or2];
    // One edit, many grammars.
    {
        let lexer = char_lexer();
        let bodies = terms(3, &leaves(), &un, &bin);
        let sur = surroundings();
        let pieces = strings(&["a", "b", "c", " "]);
        let texts = texts(&["a", "b", "c", " "], tier.pick(3, 4));
        let n = sur.len() * bodies.len();
        res.push(Family::new(
            "one-edit",
            format!("{} bodies of a cached rule x {} uses; {} texts; every replacement of up to 2 characters by at most one", bodies.len(), sur.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let s = &sur[r.take(sur.len())];
                let g = Gram::new(&lexer, (s.1)(bodies[r.take(bodies.len())].clone()));
                let domain = |t: &str| g.spec(t).is_ok();
                let mut h = History::new(
                    &g.lang,
                    show_rules(&g.rules),
                    &pieces,
                    Bounds { depth: 1, doubles: false, max_del: 2 },
                    &char_cuts,
                );
                h.domain = Some(&domain);
                for t in &texts {
                    h.explore(t, ctx);
                }
            },
        ));
    }
    // Longer histories.
    {
        let lexer = char_lexer();
        let bodies = terms(tier.pick(1, 2), &leaves(), &un, &bin);
        let sur = surroundings();
        let pieces = strings(&["a", "b", "c"]);
        let texts = texts(&["a", "b", "c"], tier.pick(4, 3));
        let n = sur.len() * bodies.len();
        let depth = tier.pick(2, 3);
        let max_del = tier.pick(2, 1);
        res.push(Family::new(
            "histories",
            format!("{} bodies of a cached rule x {} uses; {} texts; {} edits in a row, and edits in two places", bodies.len(), sur.len(), texts.len(), depth),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let s = &sur[r.take(sur.len())];
                let g = Gram::new(&lexer, (s.1)(bodies[r.take(bodies.len())].clone()));
                let domain = |t: &str| g.spec(t).is_ok();
                for bounds in vec![
                    Bounds { depth: 1, doubles: true, max_del },
                    Bounds { depth, doubles: false, max_del },
                ] {
                    let mut h = History::new(&g.lang, show_rules(&g.rules), &pieces, bounds, &char_cuts);
                    h.domain = Some(&domain);
                    for t in &texts {
                        h.explore(t, ctx);
                    }
                }
            },
        ));
    }
    // Tokens of many characters, with comments and unterminated strings.
    {
        let lexers = vec![
            ("words", Lexer::new(&[(WS, r"\s+"), (COMMENT, "#[^\n]*"), (A, "ab"), (B, "[ab]+"), (C, "c")]),
                strings(&["a", "b", "c", " ", "#", "\n"])),
            ("prefixes", Lexer::new(&[(WS, r"\s+"), (A, "a"), (B, "ab"), (C, "abb"), (D, "b")]),
                strings(&["a", "b", " ", "?"])),
            ("strings", Lexer::new(&[(WS, r"\s+"), (A, "\"[^\"]*\""), (B, "b+"), (C, "c")]),
                strings(&["\"", "b", "c", " ", "\"\""])),
            ("wide", Lexer::new(&[(WS, r"\s+"), (A, "é+"), (B, "€"), (C, "[a-c]+")]),
                strings(&["é", "€", "a", " ", "𝔸"])),
            ("errors", Lexer::new(&[(A, "a+"), (B, "b")]), strings(&["a", "b", "?", "??"])),
        ];
        let rules = || {
            vec![
                vec![Rule::Pub(FILE, rep(E::Any))],
                vec![
                    Rule::Pub(FILE, rep(or(vec![E::R(1), E::R(2), E::Any]))),
                    Rule::Private(cached(E::R(3))),
                    Rule::Private(cached(seq(vec![E::T(C), rep(E::R(1))]))),
                    Rule::Pub(N1, seq(vec![E::T(A), opt(E::T(B)), not(E::T(A))])),
                ],
                vec![
                    Rule::Pub(FILE, rep(E::Skip(bx(E::T(A)), bx(E::R(1))))),
                    Rule::Private(cached(E::R(2))),
                    Rule::Pub(N1, E::Seq(vec![E::T(A), E::T(B)], Some(1))),
                ],
            ]
        };
        let n_rules = rules().len();
        let n_pieces = tier.pick(4, 5);
        let all: Vec<Vec<String>> = lexers
            .iter()
            .map(|l| texts(&l.2.iter().map(|s| s.as_str()).collect::<Vec<_>>(), n_pieces))
            .collect();
        let counts: Vec<u64> = all.iter().map(|t| t.len() as u64).collect();
        let n: u64 = counts.iter().sum::<u64>() * n_rules as u64;
        res.push(Family::new(
            "tokens",
            format!("{} tokenizations x {} grammars; texts of up to {} pieces; edits in two places, and two edits in a row", lexers.len(), n_rules, n_pieces),
            n,
            move |i, ctx| {
                let mut r = Radix(i);
                let gi = r.take(n_rules);
                let mut k = r.0;
                let mut li = 0;
                while k >= counts[li] {
                    k -= counts[li];
                    li += 1;
                }
                let text = &all[li][k as usize];
                let (name, lexer, pieces) = &lexers[li];
                let g = Gram::new(lexer, rules().swap_remove(gi));
                for pass in 0..2 {
                    let mut h = History::new(
                        &g.lang,
                        format!("{}: {}", name, show_rules(&g.rules)),
                        pieces,
                        if pass == 0 {
                            Bounds { depth: 1, doubles: true, max_del: 4 }
                        } else {
                            Bounds { depth: 2, doubles: false, max_del: 2 }
                        },
                        &char_cuts,
                    );
                    if pass == 0 || text.chars().count() < n_pieces as usize {
                        h.explore(text, ctx);
                    }
                }
            },
        ));
    }
    // Shipped languages.
    for s in langs::all() {
        let s = Arc::new(s);
        let token_cuts = {
            let s = s.clone();
            move |t: &str| langs::token_cuts(&(s.lang)().parse(t.to_owned()))
        };
        // Quotes make tokens that depend on text far away, see known findings.
        let pieces: Vec<String> = s.core.iter().filter(|p| !p.contains('\'')).map(|p| (*p).to_owned()).collect();
        {
            let s = s.clone();
            let token_cuts = token_cuts.clone();
            let pieces = pieces.clone();
            let max_del = tier.pick(2, 4);
            let rust = s.name == "rust";
            res.push(Family::new(
                format!("{}-one-edit", s.name),
                format!("{} samples; every replacement of up to {} tokens by one of {} pieces", s.samples.len(), if rust { max_del - 1 } else { max_del }, pieces.len()),
                s.samples.len() as u64,
                move |i, ctx| {
                    let lang = (s.lang)();
                    let sample = &s.samples[i as usize];
                    if rust && tier == Tier::Quick && sample.len() > 200 {
                        return;
                    }
                    let bounds = Bounds { depth: 1, doubles: false, max_del: if rust { max_del - 1 } else { max_del } };
                    History::new(lang, s.name.to_owned(), &pieces, bounds, &token_cuts).explore(sample, ctx);
                },
            ));
        }
        // Two edits.
        let (texts, pieces): (Vec<&str>, Vec<&str>) = match s.name {
            "rust" => (
                vec![
                    "fn a() {} struct B;",
                    "mod m { fn a() {} } fn b() {}",
                    "fn a() { struct S; fn b() {} x; } x!{}",
                    "pub fn a() {}\n// c\nstruct B { x: T }",
                    "use a; # fn b() { if x { fn c() {} } }",
                    "trait T { fn a(); } impl T { }",
                ],
                vec!["{", "}", "fn ", "x ", ";", "pub ", "#[a]", "//c\n", ")"],
            ),
            "fall" => (
                vec![
                    "rule a { b } rule b { a }",
                    "pub rule a(x) { <y 'z'> } rule b",
                    "tokenizer { a 'b' } rule a { b | c? } test r\"x\"",
                    "#[x] rule a { {b } rule c { }",
                ],
                vec!["{", "}", "rule ", "x ", "pub ", "#", "//c\n", "]"],
            ),
            _ => (Vec::new(), Vec::new()),
        };
        let (texts, pieces): (Vec<String>, Vec<String>) = if texts.is_empty() {
            (s.samples.clone(), s.core.iter().map(|p| (*p).to_owned()).collect())
        } else {
            (strings(&texts), strings(&pieces))
        };
        {
            let n = texts.len() as u64;
            let n_first = 4000;
            let s = s.clone();
            let max_del = tier.pick(1, 3);
            res.push(Family::new(
                format!("{}-two-edits", s.name),
                format!("{} texts; two edits in a row, each replaces at most {} tokens by one of {} pieces", n, max_del, pieces.len()),
                n * n_first,
                move |i, ctx| {
                    let mut r = Radix(i);
                    let text = &texts[r.take(n as usize)];
                    let lang = (s.lang)();
                    // Raw strings make tokens that depend on text far away, see below.
                    let depth = if s.name == "weird" { 1 } else { 2 };
                    let bounds = Bounds { depth, doubles: false, max_del };
                    let mut h = History::new(lang, s.name.to_owned(), &pieces, bounds, &token_cuts);
                    h.only_first = Some(r.0 as usize);
                    h.explore(text, ctx);
                },
            ));
        }
    }
    // Long texts.
    {
        let sizes = sizes(tier.pick(8, 40), tier.pick(256, 2048));
        for s in langs::all() {
            // Raw strings and escaped quotes make tokens that depend on text far away, see below.
            let mut runs = crate::c04::runs(s.name);
            runs.retain(|r| s.name != "rust" || !(r.0.starts_with('r') || r.1.starts_with('\\')));
            let s = Arc::new(s);
            let sizes = sizes.clone();
            let k = sizes.len();
            res.push(Family::new(
                format!("{}-stretched", s.name),
                format!("{} runs of pieces of each of {} sizes up to {}; every replacement between five places by one of four texts, two in a row in texts of up to {} pieces", runs.len(), k, sizes[k - 1], tier.pick(3, 8)),
                (k * runs.len()) as u64,
                move |i, ctx| {
                    let mut r = Radix(i);
                    let (open, unit, close) = runs[r.take(runs.len())];
                    let n = sizes[r.0 as usize];
                    let text = format!("{}{}{}", open, unit.repeat(n), close);
                    let pieces = vec![unit.to_owned(), unit.repeat(n / 2 + 2), "x ".to_owned(), close.to_owned()];
                    let cuts = move |t: &str| places(t, open.len(), unit.len());
                    let bounds = Bounds { depth: if n <= tier.pick(3, 8) { 2 } else { 1 }, doubles: false, max_del: 2 };
                    let mut h = History::new((s.lang)(), s.name.to_owned(), &pieces, bounds, &cuts);
                    h.explore(&text, ctx);
                },
            ));
        }
        let lexer = char_lexer();
        let k = sizes.len();
        let sur = surroundings();
        let bodies = vec![
            seq(vec![E::T(A), rep(E::R(2))]),
            rep(seq(vec![E::T(A), opt(E::R(2))])),
            seq(vec![rep(E::T(A)), opt(E::T(B))]),
            or(vec![seq(vec![rep(E::T(A)), E::T(B)]), E::T(A)]),
        ];
        let shapes: Vec<(&str, &str, &str)> = vec![("", "a", ""), ("", "ab", ""), ("a", "b", "a"), ("c", "ab", "c"), ("", "aab", "b")];
        res.push(Family::new(
            "stretched",
            format!("{} bodies of a cached rule x {} uses; {} texts of each of {} sizes up to {}; every replacement between five places by one of four texts", bodies.len(), sur.len(), shapes.len(), k, sizes[k - 1]),
            (bodies.len() * sur.len() * shapes.len() * k) as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let s = &sur[r.take(sur.len())];
                let (open, unit, close) = shapes[r.take(shapes.len())];
                let g = Gram::new(&lexer, (s.1)(bodies[r.take(bodies.len())].clone()));
                let n = sizes[r.0 as usize];
                let text = format!("{}{}{}", open, unit.repeat(n), close);
                let pieces = vec![unit.to_owned(), unit.repeat(n / 2 + 2), "c".to_owned(), " ".to_owned()];
                let cuts = move |t: &str| places(t, open.len(), unit.len());
                let domain = |t: &str| g.spec_bounded(t, 1_000_000).is_ok();
                let mut h = History::new(&g.lang, show_rules(&g.rules), &pieces, Bounds { depth: 1, doubles: false, max_del: 2 }, &cuts);
                h.domain = Some(&domain);
                h.explore(&text, ctx);
            },
        ));
    }
    // Tokens that depend on text more than one character behind their end.
    {
        let cases: Vec<(&'static str, String, Change)> = vec![
            ("rust", "'a{ x".to_owned(), vec![(3, 3, "'".to_owned())]),
            ("rust", "\"\\\"x".to_owned(), vec![(4, 4, "\"".to_owned())]),
            ("rust", "r#\"abc\" x".to_owned(), vec![(7, 7, "#".to_owned())]),
        ];
        res.push(Family::new(
            "distant-lookahead",
            format!("{} edits far behind a token that they change", cases.len()),
            cases.len() as u64,
            move |i, ctx| {
                let (name, text, change) = &cases[i as usize];
                let s = langs::all().into_iter().find(|s| s.name == *name).unwrap();
                let lang = (s.lang)();
                let new_text = apply(text, change);
                ctx.check(&|| format!("{} {:?} => {:?}", name, text, new_text), || {
                    let file = lang.parse(text.clone()).edit(&to_edit(text, change, 0));
                    let got = crate::spec::flatten_file(&file, &|_| true);
                    let want = crate::spec::flatten_file(&lang.parse(new_text.clone()), &|_| true);
                    if got != want {
                        let nm = |t: u32| lang.node_type_info(fall_tree::NodeType(t)).name.to_owned();
                        return Err(format!(
                            "from scratch: {}\n  incremental: {}",
                            crate::spec::show_flat(&want, &nm),
                            crate::spec::show_flat(&got, &nm)
                        ));
                    }
                    Ok(0)
                });
            },
        ));
    }
    res
}

/// The start, the middle, the end, and one unit from them.
fn places(t: &str, open: usize, unit: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, open, open + unit, t.len() / 2, t.len() / 2 + unit, t.len() - t.len().min(unit), t.len()];
    for o in v.iter_mut() {
        *o = (*o).min(t.len());
        while !t.is_char_boundary(*o) {
            *o -= 1;
        }
    }
    v.sort();
    v.dedup();
    v
}
