//! Grammar combinators against ordered-choice semantics.

use std::sync::Arc;

use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;
use crate::stretch::{grammars_family, texts_family};

pub fn families(tier: Tier) -> Vec<Family> {
    let lexer = char_lexer();
    let un: [fn(E) -> E; 3] = [rep, opt, not];
    let bin: [fn(E, E) -> E; 2] = [seq2, or2];
    let mut res = Vec::new();

    // One rule that uses everything.
    {
        let leaves = [E::T(A), E::T(B), E::Any, E::Eof, E::R(1)];
        let bodies = terms(tier.pick(4, 5), &leaves, &un, &bin);
        let texts = texts(&["a", "b", "c"], tier.pick(4, 5));
        let lexer = lexer.clone();
        res.push(Family::new(
            "single-rule",
            format!("all {} bodies of the top rule up to size {}, with a public rule for `b a`; {} texts over a,b,c",
                bodies.len(), tier.pick(4, 5), texts.len()),
            bodies.len() as u64,
            move |i, ctx| {
                let rules = vec![
                    Rule::Pub(FILE, bodies[i as usize].clone()),
                    Rule::Pub(N1, seq(vec![E::T(B), E::T(A)])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }

    // Two rules, the second of them recursive.
    {
        let top = terms(3, &[E::T(A), E::T(C), E::R(1)], &un, &bin);
        let sub = terms(tier.pick(3, 4), &[E::T(A), E::T(B), E::R(1), E::Any], &un, &bin);
        let texts = texts(&["a", "b", "c"], tier.pick(4, 5));
        let lexer = lexer.clone();
        let n = (top.len() * sub.len()) as u64;
        res.push(Family::new(
            "recursive-rule",
            format!("{} top bodies x {} bodies of a recursive public rule; {} texts", top.len(), sub.len(), texts.len()),
            n,
            move |i, ctx| {
                let rules = vec![
                    Rule::Pub(FILE, top[i as usize % top.len()].clone()),
                    Rule::Pub(N1, sub[i as usize / top.len()].clone()),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }

    // Mutual recursion between a private and a public rule, bracketed.
    {
        let leaves = [E::T(A), E::T(LP), E::T(RP), E::R(1), E::R(2)];
        let body1 = terms(tier.pick(3, 4), &leaves, &[rep, opt], &bin);
        let body2 = vec![
            seq(vec![E::T(LP), E::R(1), E::T(RP)]),
            seq(vec![E::T(LP), opt(E::R(1)), E::T(RP)]),
            or(vec![seq(vec![E::T(LP), rep(E::R(2)), E::T(RP)]), E::T(A)]),
            or(vec![seq(vec![E::T(LP), E::R(1), E::T(RP)]), seq(vec![E::T(LP), E::R(1), E::T(A)]), E::T(A)]),
            seq(vec![not(seq(vec![E::T(A), E::T(A)])), or(vec![E::T(A), seq(vec![E::T(LP), rep(E::R(1)), E::T(RP)])])]),
            seq(vec![E::T(A), not(not(E::T(RP)))]),
        ];
        let texts = texts(&["a", "(", ")"], tier.pick(5, 6));
        let lexer = lexer.clone();
        let n = (body1.len() * body2.len()) as u64;
        res.push(Family::new(
            "mutual-recursion",
            format!("{} x {} bodies of two rules that call each other; {} texts", body1.len(), body2.len(), texts.len()),
            n,
            move |i, ctx| {
                let rules = vec![
                    Rule::Pub(FILE, rep(E::R(1))),
                    Rule::Pub(N1, body1[i as usize % body1.len()].clone()),
                    Rule::Private(body2[i as usize / body1.len()].clone()),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }

    // Contextual tokens.
    {
        let leaves = [
            E::T(A), E::Ctx(X1, "aa"), E::Ctx(X2, "ab"), E::Ctx(X1, "a"), E::Ctx(X2, "aab"), E::R(1),
        ];
        let bodies = terms(tier.pick(3, 4), &leaves, &un, &bin);
        let texts = texts(&["a", "b", " "], tier.pick(5, 6));
        let lexer = lexer.clone();
        res.push(Family::new(
            "contextual-tokens",
            format!("all {} bodies with contextual tokens; {} texts", bodies.len(), texts.len()),
            bodies.len() as u64,
            move |i, ctx| {
                let rules = vec![
                    Rule::Pub(FILE, seq(vec![bodies[i as usize].clone(), rep(E::T(B))])),
                    Rule::Pub(N1, or(vec![E::Ctx(X2, "ba"), E::T(B)])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }

    // Sequences and choices with many parts, failing late.
    {
        let parts = [E::T(A), opt(E::T(B)), rep(E::T(C)), E::R(1), not(E::T(C)), E::Eof];
        let texts = texts(&["a", "b", "c"], tier.pick(5, 7));
        let lexer = lexer.clone();
        let k = parts.len();
        let len = tier.pick(4, 5);
        let n = (0..len).fold(1, |n, _| n * k) as u64;
        let parts = Arc::new(parts);
        res.push(Family::new(
            "long-sequences",
            format!("all sequences of {} parts out of {}, alone and as first alternative; {} texts", len, k, texts.len()),
            n * 2,
            move |i, ctx| {
                let mut r = mccore::util::Radix(i);
                let as_alt = r.take(2) == 1;
                let s = seq((0..len).map(|_| parts[r.take(k)].clone()).collect());
                let body = if as_alt {
                    or(vec![s, seq(vec![E::R(1), E::T(A)]), rep(or(vec![E::R(1), E::T(A)]))])
                } else {
                    s
                };
                let rules = vec![Rule::Pub(FILE, body), Rule::Pub(N1, or(vec![seq(vec![E::T(A), E::T(B)]), E::T(B)]))];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Long and deep texts.
    {
        let node = |e| vec![Rule::Pub(FILE, rep(E::R(1))), Rule::Pub(N1, e)];
        let gs = vec![
            (node(or(vec![seq(vec![E::T(A), E::T(B)]), E::T(B)])), vec![("", "ab", "", ""), ("", "b", "", ""), ("", "b", "a", ""), ("ab", "b", "c", ""), ("", "abb", "abc", "")]),
            (node(seq(vec![E::T(LP), rep(E::R(1)), E::T(RP)])), vec![("", "(", ")", " "), ("", "()", "", ""), ("(", "()", ")", ""), ("", "(()", ")", " "), ("", "(", "", ""), ("", "(", "a", ")")]),
            (node(seq(vec![E::T(A), opt(E::R(1)), opt(E::T(B))])), vec![("", "a", "b", " "), ("", "a", "", ""), ("", "aab", "", ""), ("", "a", "b", "b")]),
            (
                vec![Rule::Pub(FILE, or(vec![seq(vec![rep(E::R(1)), E::Eof]), seq(vec![rep(E::T(A)), rep(E::R(1))])])), Rule::Pub(N1, or(vec![E::T(A), E::T(B)]))],
                vec![("", "a", "", ""), ("", "a", "c", ""), ("", "ab", "c", ""), ("", "a", "b", "c")],
            ),
            (
                vec![Rule::Pub(FILE, rep(or(vec![seq(vec![not(seq(vec![rep(E::T(A)), E::T(B)])), E::Any]), seq(vec![rep(E::T(A)), E::R(1)])]))), Rule::Pub(N1, E::T(B))],
                vec![("", "a", "b", ""), ("", "a", "c", ""), ("c", "ab", "", "")],
            ),
        ];
        res.push(texts_family(tier, "stretched", gs, tier.pick(1024, 4096)));
    }
    // Large grammars.
    res.push(grammars_family(tier, "large", "sequences, choices, chains of rules, nested expressions", 7, tier.pick(1024, 4096), |kind, n| {
        let word = |k: usize| seq(std::iter::repeat(E::T(A)).take(k).chain(Some(E::T(B))).collect());
        let a = |k: usize| "a".repeat(k);
        let around = |f: &dyn Fn(usize) -> String| vec![f(n.saturating_sub(1)), f(n), f(n + 1)];
        let sub = Rule::Pub(N1, E::T(A));
        match kind {
            // a sequence of many parts
            0 => (vec![Rule::Pub(FILE, seq((0..n).map(|k| if k % 3 == 0 { E::R(1) } else { E::T(A) }).collect())), sub], around(&a)),
            // a choice of many alternatives, the last one first
            1 => {
                let n = n.min(70);
                let alts = (0..n).map(|k| seq(vec![word(n - 1 - k), E::R(1)])).collect();
                (vec![Rule::Pub(FILE, or(alts)), sub], (0..n + 1).map(|k| format!("{}ba", a(k))).collect())
            }
            // each rule calls the next one
            2 | 3 => {
                let mut rules: Vec<Rule> = (0..n + 1)
                    .map(|k| {
                        let e = seq(vec![E::T(A), E::R(k + 1)]);
                        let e = if k % 2 == 0 { e } else { or(vec![e, E::T(B)]) };
                        if k == 0 { Rule::Pub(FILE, e) } else if kind == 2 { Rule::Private(e) } else { Rule::Pub(N1 + k as u32 % 4, e) }
                    })
                    .collect();
                rules.push(Rule::Pub(N2, E::T(C)));
                (rules, vec![a(n + 1) + "c", a(n) + "c", a(n / 2) + "b", a(n) + "b", a(n + 2)])
            }
            // each rule calls one of two others
            4 => {
                let n = n.min(90);
                let rules = (0..n + 2)
                    .map(|k| {
                        let e = or(vec![seq(vec![E::T(A), E::R((k * 2 + 1) % (n + 2))]), seq(vec![E::T(B), E::R((k + n) % (n + 2))]), E::T(C)]);
                        if k == 0 { Rule::Pub(FILE, e) } else { Rule::Pub(N1 + k as u32 % 4, e) }
                    })
                    .collect();
                (rules, vec![a(n) + "c", "b".repeat(n) + "c", "ab".repeat(n / 2) + "c", "abb".repeat(n / 2)])
            }
            // options in each other
            5 => {
                let mut e = E::R(1);
                for k in 0..n {
                    e = if k % 2 == 0 { opt(seq(vec![E::T(A), e])) } else { seq(vec![E::T(A), opt(e)]) };
                }
                (vec![Rule::Pub(FILE, e), sub], around(&a))
            }
            // lookaheads in each other
            _ => {
                let mut e = E::T(A);
                for _ in 0..n {
                    e = not(e);
                }
                (vec![Rule::Pub(FILE, seq(vec![e, rep(E::Any)])), sub], vec!["a".to_owned(), "b".to_owned(), String::new()])
            }
        }
    }));
    res
}
