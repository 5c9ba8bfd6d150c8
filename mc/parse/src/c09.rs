//! Scoped features: contexts, parameters, previous node, replacement, injection.

use mccore::util::Radix;
use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;
use crate::stretch::{grammars_family, texts_family};

fn enter(e: E) -> E {
    E::Enter(0, bx(e))
}
fn exit(e: E) -> E {
    E::Exit(0, bx(e))
}
fn enter1(e: E) -> E {
    E::Enter(1, bx(e))
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    let bin: [fn(E, E) -> E; 2] = [seq2, or2];
    // Contexts.
    {
        let lexer = char_lexer();
        let un: [fn(E) -> E; 6] = [rep, opt, not, enter, exit, enter1];
        let leaves = [seq(vec![E::IsIn(0), E::T(A)]), seq(vec![not(E::IsIn(0)), E::T(B)]), seq(vec![E::IsIn(1), E::T(C)]), E::R(1)];
        let bodies = terms(tier.pick(4, 5), &leaves, &un, &bin);
        let texts = texts(&["a", "b", "c"], 4);
        res.push(Family::new(
            "contexts",
            format!("all {} bodies with two context flags; {} texts", bodies.len(), texts.len()),
            bodies.len() as u64,
            move |i, ctx| {
                let rules = vec![
                    Rule::Pub(FILE, seq(vec![bodies[i as usize].clone(), rep(E::R(1))])),
                    Rule::Pub(N1, or(vec![seq(vec![E::T(A), not(E::IsIn(0))]), seq(vec![E::T(B), E::IsIn(0)]), seq(vec![E::T(C), enter(E::R(1))])])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Parameters.
    {
        let lexer = char_lexer();
        // r1(p0) and r2(p1, p2) are called with each other.
        let b1 = terms(2, &[E::Var(0), E::T(A)], &[opt, rep, not], &bin);
        let b1: Vec<E> = b1.into_iter().chain(vec![
            seq(vec![E::Var(0), E::T(A), E::Var(0)]),
            seq(vec![E::Var(0), rep(seq(vec![E::T(C), E::Var(0)]))]),
            or(vec![seq(vec![E::Var(0), E::T(C)]), seq(vec![E::T(C), E::Var(0)])]),
            E::Call(2, vec![(1, E::Var(0)), (2, E::T(C))]),
            E::Call(2, vec![(1, E::T(C)), (2, E::Var(0))]),
            E::Call(2, vec![(1, seq(vec![E::Var(0), E::T(C)])), (2, E::Var(0))]),
            seq(vec![E::Call(2, vec![(1, E::Var(0)), (2, E::Var(0))]), E::Var(0)]),
        ]).collect();
        let b2 = vec![
            seq(vec![E::Var(1), E::Var(2)]),
            seq(vec![E::Var(2), rep(E::Var(1))]),
            or(vec![seq(vec![E::Var(1), E::Var(2)]), seq(vec![E::Var(2), E::Var(1)])]),
            seq(vec![opt(E::Var(2)), not(E::Var(1)), E::Any]),
            seq(vec![E::T(A), opt(E::Call(2, vec![(1, E::Var(2)), (2, E::Var(1))])), E::Var(1)]),
            seq(vec![E::T(A), opt(E::Call(2, vec![(1, seq(vec![E::Var(1), E::Var(2)])), (2, E::Var(1))])), E::Var(1)]),
            or(vec![seq(vec![E::T(C), E::Call(2, vec![(1, or(vec![E::Var(2), E::Var(1)])), (2, opt(E::Var(2)))])]), E::Var(2)]),
        ];
        let args = vec![E::T(A), E::T(B), E::R(3), seq(vec![E::T(A), E::T(B)]), opt(E::T(B)),
            E::Call(1, vec![(0, E::T(B))]), E::Call(2, vec![(1, E::T(A)), (2, E::T(B))])];
        let tops: Vec<fn(E, E) -> E> = vec![
            |x: E, _: E| rep(E::Call(1, vec![(0, x)])),
            |x: E, y: E| seq(vec![opt(E::Call(1, vec![(0, x)])), E::Call(1, vec![(0, y)])]),
            |x: E, y: E| or(vec![seq(vec![E::Call(2, vec![(1, x.clone()), (2, y.clone())]), E::Eof]), E::Call(2, vec![(1, y), (2, x)])]),
            |x: E, y: E| E::Call(1, vec![(0, E::Call(1, vec![(0, E::Call(2, vec![(1, x), (2, y)]))]))]),
        ];
        let texts = texts(&["a", "b", "c"], tier.pick(4, 5));
        let n = b1.len() * b2.len() * args.len() * args.len() * tops.len();
        res.push(Family::new(
            "parameters",
            format!("{} x {} bodies of rules with parameters, {} argument pairs, {} uses; {} texts", b1.len(), b2.len(), args.len() * args.len(), tops.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let x = args[r.take(args.len())].clone();
                let y = args[r.take(args.len())].clone();
                let top = tops[r.take(tops.len())](x, y);
                let body2 = b2[r.take(b2.len())].clone();
                let body1 = b1[r.take(b1.len())].clone();
                let rules = vec![
                    Rule::Pub(FILE, top),
                    Rule::Pub(N1, body1),
                    Rule::Private(body2),
                    Rule::Pub(N3, E::T(B)),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // The previously finished node.
    {
        let lexer = char_lexer();
        let un: [fn(E) -> E; 3] = [rep, opt, not];
        let leaves = [
            E::R(1), E::R(2), E::T(A),
            seq(vec![E::Prev(vec![N1]), E::T(C)]),
            seq(vec![not(E::Prev(vec![N1])), E::T(B)]),
            E::Prev(vec![N2, N3]),
        ];
        let bodies = terms(tier.pick(3, 4), &leaves, &un, &bin);
        let texts = texts(&["a", "b", "c"], 4);
        let frames: Vec<fn(E) -> E> = vec![
            |e| seq(vec![e, rep(or(vec![seq(vec![E::Prev(vec![N1]), E::T(A)]), seq(vec![E::Prev(vec![N2]), E::T(B)]), E::R(3)]))]),
            |e| seq(vec![or(vec![seq(vec![e.clone(), E::T(B), E::T(B)]), seq(vec![E::R(2), e])]), opt(seq(vec![E::Prev(vec![N1]), E::T(A)])), rep(E::Any)]),
            |e| rep(E::Skip(bx(or(vec![E::T(A), E::R(2)])), bx(seq(vec![e, opt(seq(vec![E::Prev(vec![N2, FILE]), E::T(C)]))])))),
            |e| seq(vec![E::Layer(bx(e.clone()), bx(rep(or(vec![E::R(2), E::R(1)])))), opt(seq(vec![E::Prev(vec![N1]), E::T(A)])), rep(E::R(3))]),
            |e| seq(vec![not(seq(vec![e.clone(), E::T(C)])), opt(seq(vec![E::Prev(vec![N1, N2]), E::T(A)])), opt(e), rep(E::R(3))]),
            |e| E::Seq(vec![E::R(2), e, opt(seq(vec![E::Prev(vec![N2]), E::T(B)])), E::R(1)], Some(1)),
        ];
        let n = bodies.len() * frames.len();
        res.push(Family::new(
            "previous-node",
            format!("{} bodies with tests on the previously finished node x {} surroundings; {} texts", bodies.len(), frames.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let frame = frames[r.take(frames.len())];
                let rules = vec![
                    Rule::Pub(FILE, frame(bodies[r.take(bodies.len())].clone())),
                    Rule::Pub(N1, E::T(A)),
                    Rule::Pub(N2, seq(vec![E::T(B), opt(E::R(1))])),
                    Rule::Pub(N3, seq(vec![E::Any, opt(seq(vec![E::Prev(vec![N3]), E::T(C)]))])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Operators that look at the previous node.
    {
        let lexer = char_lexer();
        let texts = texts(&["a", "b", "+", "-"], tier.pick(5, 6));
        let guards = vec![
            seq(vec![not(E::Prev(vec![N2])), E::T(PLUS)]),
            seq(vec![E::Prev(vec![N1]), E::T(PLUS)]),
            seq(vec![not(E::Prev(vec![N3])), E::T(PLUS)]),
            seq(vec![E::Prev(vec![N4, N2]), E::T(PLUS)]),
            seq(vec![E::Prev(vec![N5]), E::T(PLUS)]),
            or(vec![seq(vec![E::IsIn(0), not(E::Prev(vec![N2])), E::T(PLUS)]), seq(vec![not(E::IsIn(0)), E::T(PLUS)])]),
        ];
        let n = guards.len() * 2 * 4 * 4;
        res.push(Family::new(
            "guarded-operators",
            format!("{} operators guarded by the previous node or a context x kinds x surroundings; {} texts", guards.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = guards[r.take(guards.len())].clone();
                let has_rhs = r.take(2) == 0;
                let mut t = Table { atoms: vec![E::R(2), E::R(3)], prefixes: vec![], infixes: vec![(N3, g.clone(), 1, has_rhs)] };
                match r.take(4) {
                    0 => t.infixes.push((N4, E::T(MINUS), 2, true)),
                    1 => t.prefixes.push((N4, E::T(MINUS), 1)),
                    2 => {
                        t.infixes.push((N4, E::T(MINUS), 1, false));
                        t.prefixes.push((N5, seq(vec![g, E::T(MINUS)]), 2));
                    }
                    _ => {
                        t.prefixes.push((N4, seq(vec![E::T(PLUS), not(E::T(PLUS))]), 3));
                        t.infixes.push((N5, seq(vec![E::R(2), E::T(MINUS)]), 3, true));
                    }
                }
                let expr = E::R(1);
                let top = match r.take(4) {
                    0 => rep(expr),
                    1 => rep(seq(vec![enter(expr.clone()), opt(expr)])),
                    2 => seq(vec![not(seq(vec![enter(expr.clone()), E::Eof])), rep(expr)]),
                    _ => rep(or(vec![seq(vec![E::R(4), expr]), E::Any])),
                };
                let rules = vec![
                    Rule::Pub(FILE, top),
                    Rule::Private(E::Pratt(t)),
                    Rule::Pub(N1, E::T(A)),
                    Rule::Pub(N2, E::T(B)),
                    Rule::Pub(N5, E::T(MINUS)),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Replacement.
    {
        let lexer = char_lexer();
        let un: [fn(E) -> E; 3] = [rep, opt, not];
        // r1 replaceable N1; r2 replaces by N3; r3 replaces by N4; r4 plain N5
        let leaves = [E::T(A), E::R(1), E::R(2), E::R(3), E::R(4), E::R(5)];
        let bodies = terms(tier.pick(3, 4), &leaves, &un, &bin);
        let tops = vec![
            rep(or(vec![E::R(1), E::Any])),
            seq(vec![opt(E::R(2)), rep(or(vec![E::R(1), E::Any]))]),
            seq(vec![or(vec![seq(vec![E::R(1), E::T(C), E::T(C)]), E::R(4)]), rep(E::R(1)), rep(E::Any)]),
            rep(or(vec![seq(vec![E::R(3), E::R(1)]), E::Any])),
            seq(vec![not(seq(vec![E::R(1), E::T(B)])), rep(or(vec![E::R(1), E::R(2), E::Any]))]),
        ];
        let texts = texts(&["a", "b", "c"], tier.pick(4, 5));
        let n = bodies.len() * tops.len();
        res.push(Family::new(
            "replacement",
            format!("{} bodies of a replaceable rule x {} uses; {} texts", bodies.len(), tops.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let top = tops[r.take(tops.len())].clone();
                let body = bodies[r.take(bodies.len())].clone();
                let rules = vec![
                    Rule::Pub(FILE, top),
                    Rule::Replaceable(N1, seq(vec![E::T(A), body])),
                    Rule::Replaces(N3, E::T(B)),
                    Rule::Replaces(N4, seq(vec![E::T(C), opt(E::R(2))])),
                    Rule::Pub(N5, seq(vec![E::T(C), opt(E::R(2)), opt(E::R(1))])),
                    Rule::Replaceable(N6, seq(vec![E::T(B), opt(E::R(3))])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Injection.
    {
        let lexer = char_lexer();
        let prefixes = vec![
            E::R(1),
            opt(E::R(1)),
            rep(E::R(1)),
            seq(vec![rep(E::R(1)), opt(E::R(2))]),
            or(vec![seq(vec![E::R(1), E::R(2)]), E::R(2), E::R(3)]),
            seq(vec![E::R(3), opt(E::R(1))]),
            E::Seq(vec![E::R(1), E::R(1)], Some(1)),
            E::Skip(bx(E::T(A)), bx(E::R(1))),
            seq(vec![E::R(1), E::T(B)]),
        ];
        let bodies = vec![
            E::R(4),
            seq(vec![E::R(4), E::T(C)]),
            seq(vec![E::R(4), E::R(4)]),
            or(vec![seq(vec![E::R(4), E::T(B), E::R(1)]), E::R(5)]),
            E::R(6),
            E::R(7),
            E::R(8),
            rep(E::R(4)),
        ];
        let frames: Vec<fn(E) -> E> = vec![
            |e| rep(e),
            |e| seq(vec![opt(seq(vec![e.clone(), E::Eof])), rep(or(vec![e, E::Any]))]),
            |e| seq(vec![not(seq(vec![e.clone(), E::T(B)])), rep(or(vec![e, E::R(1), E::Any]))]),
            |e| rep(E::Skip(bx(e.clone()), bx(e))),
            |e| rep(or(vec![seq(vec![E::Layer(bx(seq(vec![E::Any, E::Any, E::Any])), bx(e)), rep(E::T(A))]), E::Any])),
        ];
        let texts = texts(&["a", "b", "c"], tier.pick(5, 6));
        let n = prefixes.len() * bodies.len() * frames.len();
        res.push(Family::new(
            "injection",
            format!("{} prefixes x {} bodies x {} surroundings; {} texts", prefixes.len(), bodies.len(), frames.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let frame = frames[r.take(frames.len())];
                let prefix = prefixes[r.take(prefixes.len())].clone();
                let body = bodies[r.take(bodies.len())].clone();
                let rules = vec![
                    Rule::Pub(FILE, frame(E::Inject(bx(prefix), bx(body)))),
                    Rule::Pub(N1, E::T(A)),
                    Rule::Pub(N2, E::T(B)),
                    Rule::Pub(N3, opt(E::T(B))),
                    Rule::Pub(N4, seq(vec![E::T(C), opt(E::R(1))])),
                    Rule::Pub(N5, E::Seq(vec![E::T(C), E::T(C)], Some(1))),
                    Rule::Pub(N6, E::Inject(bx(rep(E::R(2))), bx(or(vec![E::R(5), E::R(4)])))),
                    Rule::Replaceable(N7, seq(vec![E::T(C), opt(E::R(9))])),
                    Rule::Private(E::Cached(bx(E::R(4)))),
                    Rule::Replaces(N3, seq(vec![E::T(C), E::T(C)])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Long and deep texts.
    {
        let gs = vec![
            // contexts that are entered and left again and again
            (
                vec![
                    Rule::Pub(FILE, rep(E::R(1))),
                    Rule::Private(or(vec![seq(vec![E::IsIn(0), E::R(2)]), seq(vec![not(E::IsIn(0)), E::R(3)])])),
                    Rule::Pub(N1, or(vec![seq(vec![E::T(LP), exit(rep(E::R(1))), E::T(RP)]), E::T(A)])),
                    Rule::Pub(N2, or(vec![seq(vec![E::T(LP), enter(rep(E::R(1))), E::T(RP)]), E::T(B)])),
                ],
                vec![("", "(", ")", " "), ("", "(", "a)", " "), ("", "(b", ")", " "), ("", "(", "b)", " "), ("", "(a)", "b", ""), ("(", "a", ")", "b"), ("(", "(b)", ")", "b"), ("", "((b)a)b", "", "")],
            ),
            // arguments that refer to the arguments of their caller
            (
                vec![
                    Rule::Pub(FILE, E::Call(1, vec![(0, E::T(B))])),
                    Rule::Pub(N1, or(vec![seq(vec![E::T(A), E::Call(1, vec![(0, seq(vec![E::Var(0), E::R(2)]))])]), seq(vec![E::T(C), E::Var(0)])])),
                    Rule::Pub(N2, E::T(B)),
                ],
                vec![("", "a", "c", "b"), ("", "a", "cb", ""), ("a", "b", "", ""), ("", "a", "b", " "), ("", "aa", "cbbbb", "b")],
            ),
            // a prefix that many rules consume
            (
                vec![
                    Rule::Pub(FILE, rep(or(vec![E::Inject(bx(rep(E::R(1))), bx(or(vec![E::R(2), E::R(3)]))), E::Any]))),
                    Rule::Pub(N1, E::T(A)),
                    Rule::Pub(N2, seq(vec![E::T(B), rep(E::R(1)), opt(E::T(C))])),
                    Rule::Pub(N3, seq(vec![E::T(C), opt(E::R(2))])),
                ],
                vec![("", "a", "b", ""), ("", "a", "c", ""), ("", "ab", "", ""), ("", "aab", "c", ""), ("", "a", "", ""), ("ab", "a", "c", "b")],
            ),
            // replacements
            (
                vec![
                    Rule::Pub(FILE, rep(or(vec![E::R(1), E::Any]))),
                    Rule::Replaceable(N1, seq(vec![E::T(A), opt(E::R(1)), opt(E::R(2)), opt(E::R(3))])),
                    Rule::Replaces(N2, E::T(B)),
                    Rule::Replaces(N3, seq(vec![E::T(C), opt(E::R(4))])),
                    Rule::Replaceable(N4, seq(vec![E::T(D), opt(E::R(3))])),
                ],
                vec![("", "a", "b", ""), ("a", "cd", "c", ""), ("a", "cd", "b", ""), ("", "ab", "", ""), ("", "abc", "", ""), ("", "acd", "", "")],
            ),
            // the previous node, far behind
            (
                vec![
                    Rule::Pub(FILE, rep(or(vec![E::R(1), E::R(2), E::Any]))),
                    Rule::Pub(N1, seq(vec![E::T(A), rep(E::T(B)), opt(E::R(1))])),
                    Rule::Pub(N2, seq(vec![E::Prev(vec![N1]), E::T(C)])),
                ],
                vec![("a", "b", "c", ""), ("", "a", "c", ""), ("a", "c", "", ""), ("", "ac", "", ""), ("", "ab", "c", "c")],
            ),
        ];
        res.push(texts_family(tier, "stretched", gs, tier.pick(512, 2048)));
    }
    res.push(grammars_family(tier, "large", "nested contexts, chained calls, all numbers of parameters and contexts", 5, tier.pick(64, 256), |kind, n| {
        match kind {
            // contexts entered and left in each other, both tested in the middle
            0 | 1 => {
                let mut e = or(vec![seq(vec![E::IsIn(0), E::T(A)]), seq(vec![E::IsIn(1), E::T(B)]), E::T(C)]);
                for k in 0..n {
                    let inside = seq(vec![opt(seq(vec![E::IsIn(0), E::T(D)])), e]);
                    e = if (k + kind) % 3 == 0 { enter(inside) } else if (k + kind) % 3 == 1 { exit(inside) } else { enter1(inside) };
                }
                (vec![Rule::Pub(FILE, seq(vec![e, opt(seq(vec![not(E::IsIn(0)), E::T(A)]))]))], vec!["a", "b", "c", "ca", "ba"].into_iter().map(String::from).chain((0..n + 2).flat_map(|k| vec!["d".repeat(k) + "a", "d".repeat(k) + "b"])).collect())
            }
            // a rule with n parameters (of 16), each used once, in another order
            2 => {
                let n = n % 17;
                let t = |k: usize| [E::T(A), E::T(B), E::T(C), E::R(2)][k * 7 % 4].clone();
                let args = (0..n).map(|k| (k as u32, t(k))).collect();
                let body = (0..n).map(|k| E::Var(((k * 5 + 3) % n) as u32)).collect();
                let word: String = (0..n).map(|k| ["a", "b", "c", "d"][(k * 5 + 3) % n * 7 % 4]).collect();
                let rules = vec![Rule::Pub(FILE, E::Call(1, args)), Rule::Pub(N1, seq(body)), Rule::Pub(N2, E::T(D))];
                if 5 % n.max(1) == 0 && n > 1 {
                    return (rules, Vec::new());
                }
                (rules, vec![word.clone(), word.chars().rev().collect(), word.chars().skip(1).collect(), word + "a"])
            }
            // n contexts (of 16): one is entered, one is asked for
            3 => {
                let n = n as u32;
                let (a, b) = (n % 16, n / 3 % 16);
                let inner = or(vec![seq(vec![E::IsIn(b), E::T(A)]), E::T(B)]);
                let all = (0..16).fold(E::T(C), |e, k| or(vec![seq(vec![E::IsIn(k), [E::T(A), E::T(B), E::T(D)][k as usize % 3].clone()]), e]));
                (
                    vec![Rule::Pub(FILE, seq(vec![E::Enter(a, bx(inner)), E::Enter(b, bx(rep(E::R(1)))), E::Exit(a, bx(opt(E::R(1))))])), Rule::Pub(N1, all)],
                    texts(&["a", "b", "c", "d"], 4),
                )
            }
            // rules that hand their argument on
            _ => {
                let mut rules = vec![Rule::Pub(FILE, rep(or(vec![seq(vec![E::T(D), E::Call(1, vec![(0, E::T(A))])]), E::Call(1, vec![(0, E::T(B))])])))];
                for k in 1..=n {
                    rules.push(Rule::Private(E::Call(k + 1, vec![(0, if k % 4 == 0 { seq(vec![E::Var(0), E::T(C)]) } else { E::Var(0) })])));
                }
                rules.push(Rule::Pub(N1, E::Var(0)));
                let c = "c".repeat(n / 4);
                (rules, vec![format!("da{}", c), format!("b{}", c), format!("da{}b{}", c, c), format!("a{}", c), format!("b{}da{}c", c, c)])
            }
        }
    }));
    res
}
