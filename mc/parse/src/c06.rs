//! Layers, commits, skipping.

use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;
use crate::stretch::{grammars_family, texts_family};

/// Balanced parentheses around anything.
fn balanced() -> E {
    // r2 = ( r3* ),  r3 = r2 | <not )> <any>
    E::R(2)
}

fn balanced_rules() -> Vec<Rule> {
    vec![
        Rule::Private(seq(vec![E::T(LP), rep(E::R(3)), E::T(RP)])),
        Rule::Private(or(vec![E::R(2), seq(vec![not(E::T(RP)), E::Any])])),
    ]
}

fn with_rules(top: Rule, n1: Rule) -> Vec<Rule> {
    let mut v = vec![top, n1];
    v.extend(balanced_rules());
    v
}

pub fn layers(tier: Tier) -> Vec<Family> {
    let lexer = char_lexer();
    let mut res = Vec::new();
    let un: [fn(E) -> E; 3] = [rep, opt, not];
    let bin: [fn(E, E) -> E; 2] = [seq2, or2];

    let covers = vec![
        balanced(),
        seq(vec![E::T(LP), rep(seq(vec![not(E::T(RP)), E::Any])), E::T(RP)]),
        seq(vec![E::T(LP), rep(E::T(A)), opt(E::T(B))]),
        rep(seq(vec![not(E::T(B)), E::Any])),
        opt(E::T(A)),
        E::T(LP),
        seq(vec![E::T(LP), E::Any, E::Any]),
        or(vec![seq(vec![E::T(LP), E::T(RP)]), seq(vec![E::T(LP), E::T(A), E::T(RP)]), E::T(A)]),
        not(E::T(A)),
        seq(vec![E::R(1), E::Any]),
    ];
    let contents = terms(
        tier.pick(3, 4),
        &[E::T(A), E::T(LP), E::T(RP), E::R(1), E::Any, E::Eof],
        &un,
        &bin,
    );
    let mut contents = contents;
    for inner in terms(2, &[E::T(A), E::R(1), E::Any, E::Eof], &un, &bin) {
        contents.push(seq(vec![E::T(LP), inner.clone(), E::T(RP)]));
        contents.push(E::Seq(vec![E::T(LP), inner.clone(), E::T(RP)], Some(1)));
        contents.push(seq(vec![E::T(LP), rep(seq(vec![inner, E::T(B)])), E::T(RP)]));
    }
    // What surrounds the layer.
    let frames: Vec<fn(E) -> E> = vec![
        |l| seq(vec![l, rep(E::T(B))]),
        |l| seq(vec![opt(E::T(A)), l, opt(E::R(1)), E::T(B)]),
        |l| seq(vec![or(vec![seq(vec![l, E::T(A)]), E::T(LP)]), rep(E::T(A))]),
        |l| seq(vec![not(seq(vec![l.clone(), E::Eof])), l, E::Eof]),
        |l| seq(vec![E::T(A), E::Layer(bx(rep(seq(vec![not(E::T(B)), E::Any]))), bx(rep(or(vec![l, E::T(A)])))), E::T(B)]),
    ];
    let texts = texts(&["a", "b", "(", ")"], tier.pick(4, 5));
    let n = covers.len() * contents.len() * frames.len();
    {
        let lexer = lexer.clone();
        res.push(Family::new(
            "layers",
            format!("{} covers x {} contents x {} surroundings; {} texts over a b ( )",
                covers.len(), contents.len(), frames.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = mccore::util::Radix(i);
                let frame = frames[r.take(frames.len())];
                let cover = covers[r.take(covers.len())].clone();
                let content = contents[r.take(contents.len())].clone();
                let rules = with_rules(
                    Rule::Pub(FILE, frame(E::Layer(bx(cover), bx(content)))),
                    Rule::Pub(N1, E::T(A)),
                );
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }

    // Nested and repeated layers with recursion.
    {
        let lexer = lexer.clone();
        let items = terms(tier.pick(3, 4), &[E::T(A), E::T(B), E::R(1), E::Eof], &[rep, opt], &bin);
        let texts = crate::gram::texts(&["a", "b", "(", ")"], tier.pick(6, 7));
        res.push(Family::new(
            "nested-layers",
            format!("{} contents of a recursive node that is a layer over balanced parentheses; {} texts", items.len(), texts.len()),
            items.len() as u64 * 2,
            move |i, ctx| {
                let item = items[i as usize / 2].clone();
                let body = if i % 2 == 0 {
                    E::Layer(bx(balanced()), bx(seq(vec![E::T(LP), item, E::T(RP)])))
                } else {
                    E::Layer(bx(balanced()), bx(seq(vec![E::T(LP), rep(E::Skip(bx(or(vec![E::T(B), E::T(LP)])), bx(item))), E::T(RP)])))
                };
                let rules = with_rules(Rule::Pub(FILE, rep(or(vec![E::R(1), E::T(A)]))), Rule::Pub(N1, body));
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Long and deep regions.
    {
        let item = || or(vec![E::R(1), E::T(A)]);
        let layer = |e| Rule::Pub(N1, E::Layer(bx(balanced()), bx(e)));
        let to_b = || rep(seq(vec![not(E::T(B)), E::Any]));
        let gs = vec![
            (
                with_rules(Rule::Pub(FILE, rep(item())), layer(seq(vec![E::T(LP), rep(item()), E::T(RP)]))),
                vec![
                    ("", "(", ")", " "), ("(", "a", ")a", ""), ("(", "b", ")a", ""), ("(a", "b", "a)a", ""), ("", "()", "a", ""), ("a(", "()", ")", ""),
                    ("", "(a", "b)", " "), ("", "(b", ")", "a"), ("", "(", ")", "b"), ("(", "(b)", ")a", ""), ("", "(", "", ""),
                ],
            ),
            (
                with_rules(
                    Rule::Pub(FILE, seq(vec![E::Layer(bx(to_b()), bx(seq(vec![rep(E::T(A)), opt(E::R(1))]))), rep(E::T(B))])),
                    Rule::Pub(N1, seq(vec![E::T(C), opt(E::R(1))])),
                ),
                vec![("", "a", "b", ""), ("", "a", "cab", ""), ("a", "c", "bb", ""), ("", "c", "ab", ""), ("aca", "c", "b", ""), ("", "ac", "", "")],
            ),
            (
                with_rules(
                    Rule::Pub(FILE, rep(E::R(1))),
                    Rule::Pub(N1, E::Layer(bx(balanced()), bx(E::Seq(vec![E::T(LP), E::Layer(bx(to_b()), bx(rep(item()))), rep(E::T(B)), E::T(RP)], Some(1))))),
                ),
                vec![("", "(", ")", " "), ("", "(", "b)", " "), ("", "(a", "b)", " "), ("(", "a", "b)", ""), ("(", "ab", "b)", ""), ("", "(ab)", "", "")],
            ),
        ];
        res.push(texts_family(tier, "stretched", gs, tier.pick(1024, 4096)));
    }
    res.push(grammars_family(tier, "large", "layers in layers, long contents, long covers", 4, tier.pick(128, 512), |kind, n| {
        let rules = match kind {
            // layers in layers
            0 | 1 => {
                let mut e = rep(E::R(1));
                for k in 0..n {
                    let cover = if kind == 0 || k % 2 == 0 { rep(E::Any) } else { rep(seq(vec![not(E::T(B)), E::Any])) };
                    e = E::Layer(bx(cover), bx(seq(vec![E::T(A), e])));
                }
                vec![Rule::Pub(FILE, seq(vec![e, rep(E::T(B))])), Rule::Pub(N1, E::T(A))]
            }
            // contents of many parts
            2 => vec![
                Rule::Pub(FILE, seq(vec![E::Layer(bx(rep(E::T(A))), bx(seq((0..n).map(|_| E::R(1)).collect()))), rep(E::T(B))])),
                Rule::Pub(N1, E::T(A)),
            ],
            // a cover of many parts
            _ => vec![
                Rule::Pub(FILE, or(vec![E::Layer(bx(seq((0..n).map(|_| E::T(A)).collect())), bx(rep(E::R(1)))), E::T(A)])),
                Rule::Pub(N1, seq(vec![E::T(A), E::T(A)])),
            ],
        };
        let texts = vec![n.saturating_sub(1), n, n + 1, n + 3].into_iter().flat_map(|m| vec!["a".repeat(m), "a".repeat(m) + "bb", "a".repeat(m) + "ba"]).collect();
        (rules, texts)
    }));
    res
}

pub fn recovery(tier: Tier) -> Vec<Family> {
    let lexer = char_lexer();
    let mut res = Vec::new();
    // Commits.
    {
        let parts = [E::T(A), E::T(B), opt(E::T(C)), rep(E::T(A)), E::R(2), not(E::T(C)), E::Eof, or(vec![seq(vec![E::T(A), E::T(B)]), E::T(C)])];
        let len = tier.pick(3, 4);
        let k = parts.len();
        let n = (0..len).fold(1, |n, _| n * k);
        let texts = texts(&["a", "b", "c"], tier.pick(5, 6));
        let tops: Vec<E> = vec![
            seq(vec![E::R(1), rep(E::T(B))]),
            or(vec![seq(vec![E::R(1), E::T(C)]), seq(vec![E::T(A), E::R(1)]), rep(E::T(A))]),
            seq(vec![opt(E::R(1)), not(E::R(1)), rep(E::Any)]),
            rep(or(vec![E::R(1), E::T(C), E::T(B)])),
        ];
        let lexer = lexer.clone();
        let n = (n * (len + 1) * tops.len() * 2) as u64;
        res.push(Family::new(
            "commit",
            format!("sequences of {} parts out of {} with a commit at every place, public and private, in {} surroundings; {} texts",
                len, k, tops.len(), texts.len()),
            n,
            move |i, ctx| {
                let mut r = mccore::util::Radix(i);
                let public = r.take(2) == 0;
                let top = tops[r.take(tops.len())].clone();
                let commit = r.take(len + 1);
                let body = E::Seq((0..len).map(|_| parts[r.take(k)].clone()).collect(), Some(commit));
                let rules = vec![
                    Rule::Pub(FILE, top),
                    if public { Rule::Pub(N1, body) } else { Rule::Private(body) },
                    Rule::Pub(N2, E::Seq(vec![E::T(B), E::T(A)], Some(1))),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Skipping.
    {
        let un: [fn(E) -> E; 2] = [rep, not];
        let bin: [fn(E, E) -> E; 2] = [seq2, or2];
        let firsts = terms(tier.pick(2, 3), &[E::T(A), E::T(B), E::Any, E::Eof, E::R(1)], &un, &bin);
        let bodies = terms(3, &[E::T(A), E::T(B), E::R(1), E::Any], &[rep, opt], &bin);
        let mut bodies = bodies;
        for c in 0..3 {
            bodies.push(E::Seq(vec![E::T(A), E::T(B)], Some(c)));
            bodies.push(E::Seq(vec![E::R(1), E::T(A)], Some(c)));
        }
        let frames: Vec<fn(E) -> E> = vec![
            |s| rep(s),
            |s| seq(vec![opt(s), rep(E::T(C))]),
            |s| seq(vec![or(vec![seq(vec![s, E::T(C)]), E::T(A)]), rep(E::T(B))]),
            |s| seq(vec![E::T(C), E::Layer(bx(rep(seq(vec![not(E::T(C)), E::Any]))), bx(rep(s))), rep(E::T(C))]),
            |s| seq(vec![not(seq(vec![s.clone(), E::T(C)])), s, E::R(1)]),
        ];
        let texts = texts(&["a", "b", "c"], tier.pick(5, 6));
        let n = (firsts.len() * bodies.len() * frames.len()) as u64;
        res.push(Family::new(
            "with_skip",
            format!("{} tests x {} bodies x {} surroundings; {} texts", firsts.len(), bodies.len(), frames.len(), texts.len()),
            n,
            move |i, ctx| {
                let mut r = mccore::util::Radix(i);
                let frame = frames[r.take(frames.len())];
                let first = firsts[r.take(firsts.len())].clone();
                let body = bodies[r.take(bodies.len())].clone();
                let rules = vec![
                    Rule::Pub(FILE, frame(E::Skip(bx(first), bx(body)))),
                    Rule::Pub(N1, seq(vec![E::T(B), opt(E::T(A))])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Long gaps, many errors.
    {
        let skip = |f, b| rep(E::Skip(bx(f), bx(b)));
        let gs = vec![
            (
                vec![Rule::Pub(FILE, skip(E::T(A), E::R(1))), Rule::Pub(N1, E::Seq(vec![E::T(A), E::T(B)], Some(1)))],
                vec![("", "c", "ab", ""), ("ab", "c", "", ""), ("ab", "c", "ab", ""), ("", "a", "b", ""), ("", "abc", "", ""), ("", "ac", "", ""), ("c", "a", "c", "b"), ("", "cab", "", "")],
            ),
            (
                vec![
                    Rule::Pub(FILE, skip(or(vec![E::T(A), E::R(2)]), or(vec![E::R(1), E::T(B)]))),
                    Rule::Pub(N1, E::Seq(vec![E::T(A), skip(E::T(B), E::R(2)), E::T(C)], Some(1))),
                    Rule::Pub(N2, E::Seq(vec![E::T(B), opt(E::R(1)), E::T(B)], Some(1))),
                ],
                vec![("", "c", "a", ""), ("", "ab", "", ""), ("", "ab", "bc", "b"), ("a", "b", "c", ""), ("", "abbc", "", ""), ("a", "bcb", "c", ""), ("", "ab", "c", " ")],
            ),
            (
                vec![Rule::Pub(FILE, seq(vec![E::R(1), rep(E::Any)])), Rule::Pub(N1, E::Seq(vec![E::T(A), opt(E::R(1)), E::T(B), E::T(C)], Some(1)))],
                vec![("", "a", "", ""), ("", "a", "bc", " "), ("", "a", "b", " "), ("", "a", "c", " "), ("a", "b", "", "")],
            ),
        ];
        res.push(texts_family(tier, "stretched", gs, tier.pick(1024, 4096)));
    }
    res.push(grammars_family(tier, "large", "commits in and before long sequences", 4, tier.pick(128, 512), |kind, n| {
        let parts: Vec<E> = (0..n).map(|k| if k % 3 == 1 { E::R(2) } else { E::T(A) }).collect();
        let commit = match kind { 0 => 0, 1 => n / 2, 2 => n.saturating_sub(1), _ => n };
        let rules = vec![
            Rule::Pub(FILE, or(vec![seq(vec![E::R(1), rep(E::T(B))]), rep(E::T(A))])),
            Rule::Pub(N1, E::Seq(parts, Some(commit))),
            Rule::Pub(N2, E::T(A)),
        ];
        let m = n + 1;
        let texts = (0..=m).filter(|&k| n <= 40 || k < 3 || k + 3 > m || (k as i64 - n as i64 / 2).abs() < 3)
            .flat_map(|k| vec!["a".repeat(k), "a".repeat(k) + "b", "a".repeat(k) + "ca"]).collect();
        (rules, texts)
    }));
    res
}
