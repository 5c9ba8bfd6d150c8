//! Operator tables.

use mccore::util::Radix;
use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;
use crate::stretch::{grammars_family, texts_family};

/// An operator: how it is used, its token, its priority.
fn op(kind: usize, token: u32, priority: u32, t: &mut Table, ty: u32) {
    let tok = E::T(token);
    match kind {
        0 => t.infixes.push((ty, tok, priority, true)),
        1 => t.infixes.push((ty, tok, priority, false)),
        2 => t.prefixes.push((ty, tok, priority)),
        3 => {
            // one token, both binary and prefix
            t.infixes.push((ty, tok.clone(), priority, true));
            t.prefixes.push((ty, tok, priority));
        }
        _ => unreachable!(),
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // Tables of three distinct operators, all kinds and priorities.
    {
        let lexer = char_lexer();
        let texts = texts(&["a", "+", "*", "!"], tier.pick(5, 7));
        let prios = [1, 2, 3];
        let n = (4 * 3u64).pow(3) * 2;
        res.push(Family::new(
            "three-operators",
            format!("all tables of three operators (binary, postfix, prefix, or both binary and prefix) with priorities 1..3; {} texts", texts.len()),
            n,
            move |i, ctx| {
                let mut r = Radix(i);
                let mut t = Table { atoms: vec![E::R(1)], prefixes: vec![], infixes: vec![] };
                for (tok, ty) in [(PLUS, N2), (STAR, N3), (BANG, N4)].iter() {
                    let kind = r.take(4);
                    op(kind, *tok, prios[r.take(3)], &mut t, *ty);
                }
                if r.take(2) == 1 {
                    t.infixes.reverse();
                }
                let rules = vec![
                    Rule::Pub(FILE, E::Pratt(t)),
                    Rule::Pub(N1, E::T(A)),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Operators that share a token, are several tokens long, or are prefixes of each other.
    {
        let lexer = char_lexer();
        let texts = texts(&["a", "+", "-"], tier.pick(6, 8));
        let ops = [
            E::T(PLUS),
            E::T(MINUS),
            seq(vec![E::T(PLUS), E::T(MINUS)]),
            seq(vec![E::T(MINUS), E::T(MINUS)]),
            E::Ctx(X1, "++"),
            or(vec![E::T(PLUS), E::T(MINUS)]),
            seq(vec![E::T(PLUS), not(E::T(MINUS))]),
            E::Seq(vec![E::T(PLUS), E::T(PLUS)], Some(1)),
        ];
        let k = ops.len();
        let n = (3 * 3 * k * k * 4) as u64 * 3;
        res.push(Family::new(
            "overlapping-operators",
            format!("tables of two overlapping operators out of {} with all kinds and priorities, plus a postfix; {} texts", k, texts.len()),
            n,
            move |i, ctx| {
                let mut r = Radix(i);
                let mut t = Table { atoms: vec![E::R(1)], prefixes: vec![], infixes: vec![] };
                for &ty in &[N2, N3] {
                    let e = ops[r.take(k)].clone();
                    match r.take(3) {
                        0 => t.infixes.push((ty, e, 0, true)),
                        1 => t.infixes.push((ty, e, 0, false)),
                        _ => t.prefixes.push((ty, e, 0)),
                    }
                }
                let pr = [[1, 1], [1, 2], [2, 1], [2, 2]][r.take(4)];
                for (ty, _, p) in t.prefixes.iter_mut() {
                    *p = pr[(*ty - N2) as usize];
                }
                for (ty, _, p, _) in t.infixes.iter_mut() {
                    *p = pr[(*ty - N2) as usize];
                }
                match r.take(3) {
                    0 => {}
                    1 => t.infixes.push((N4, E::T(MINUS), 3, false)),
                    _ => t.infixes.push((N4, E::T(MINUS), 1, true)),
                }
                let rules = vec![Rule::Pub(FILE, E::Pratt(t)), Rule::Pub(N1, E::T(A))];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Several atoms, recursion through atoms, the table inside other expressions.
    {
        let lexer = char_lexer();
        let texts = texts(&["a", "+", "*", "(", ")"], tier.pick(5, 6));
        let atoms: Vec<Vec<E>> = vec![
            vec![E::R(1), E::R(3)],
            vec![E::R(3), E::R(1)],
            vec![E::R(4), E::R(1), E::R(3)],
            vec![E::R(1), E::R(4), E::R(3)],
            vec![E::R(5), E::R(3)],
            vec![E::R(6), E::R(1)],
        ];
        let frames: Vec<fn(E) -> E> = vec![
            |e| rep(e),
            |e| seq(vec![opt(seq(vec![e.clone(), E::T(LP)])), opt(e), rep(E::Any)]),
            |e| seq(vec![not(seq(vec![e.clone(), E::Eof])), rep(or(vec![E::T(RP), e]))]),
            |e| rep(E::Skip(bx(or(vec![E::T(A), E::T(LP)])), bx(e))),
            |e| E::Layer(bx(rep(E::Any)), bx(e)),
            |e| E::Layer(bx(e.clone()), bx(e)),
        ];
        let n = (atoms.len() * frames.len() * 9 * 3) as u64;
        res.push(Family::new(
            "expressions-in-context",
            format!("{} atom lists x {} surroundings x operators; {} texts", atoms.len(), frames.len(), texts.len()),
            n,
            move |i, ctx| {
                let mut r = Radix(i);
                let a = atoms[r.take(atoms.len())].clone();
                let frame = frames[r.take(frames.len())];
                let p1 = 1 + r.take(3) as u32;
                let p2 = 1 + r.take(3) as u32;
                let mut t = Table { atoms: a, prefixes: vec![], infixes: vec![] };
                match r.take(3) {
                    0 => {
                        t.infixes.push((N2, E::T(PLUS), p1, true));
                        t.infixes.push((N3, E::T(STAR), p2, true));
                    }
                    1 => {
                        t.infixes.push((N2, E::T(PLUS), p1, true));
                        t.infixes.push((N3, seq(vec![E::T(LP), opt(E::R(2)), E::T(RP)]), p2, false));
                    }
                    _ => {
                        t.prefixes.push((N2, E::T(PLUS), p1));
                        t.infixes.push((N3, E::Seq(vec![E::T(LP), E::R(2), E::T(RP)], Some(1)), p2, false));
                    }
                }
                let rules = vec![
                    Rule::Pub(FILE, frame(E::R(2))),
                    Rule::Pub(N1, E::T(A)),
                    Rule::Private(E::Pratt(t)),
                    Rule::Pub(N5, seq(vec![E::T(LP), E::R(2), E::T(RP)])),
                    Rule::Pub(N6, seq(vec![E::T(A), E::T(LP), E::T(RP)])),
                    Rule::Private(or(vec![seq(vec![E::R(1), not(E::T(LP))]), E::R(4), E::R(7)])),
                    Rule::Pub(N7, seq(vec![E::T(LP), E::T(A)])),
                    Rule::Pub(N7, seq(vec![E::T(A), E::T(LP), E::R(2)])),
                ];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    // Long and deep expressions.
    {
        let table = |p: [u32; 4]| {
            let t = Table {
                atoms: vec![E::R(2), E::R(3)],
                prefixes: vec![(N5, E::T(MINUS), p[3])],
                infixes: vec![(N2, E::T(PLUS), p[0], true), (N3, E::T(STAR), p[1], true), (N4, E::T(BANG), p[2], false)],
            };
            vec![Rule::Pub(FILE, rep(E::R(1))), Rule::Private(E::Pratt(t)), Rule::Pub(N1, E::T(A)), Rule::Pub(N6, seq(vec![E::T(LP), E::R(1), E::T(RP)]))]
        };
        let shapes = vec![
            ("", "a+", "a", ""), ("a", "+a", "", ""), ("", "-", "a", ""), ("a", "!", "", ""), ("", "(", "a", ")"), ("", "-", "a!", ""), ("", "-a+", "a", ""), ("", "a*", "a+a", ""),
            ("a+", "a*", "a", ""), ("", "a+a*", "a", ""), ("", "-a!+", "a*a", ""), ("", "(", "a)", " "), ("", "(a+", "a)", " "), ("", "-(", "a)!", " "), ("", "(a*", "a)+a", " "), ("", "a+-", "a", ""),
            ("", "a+", "", ""), ("", "a!", "", ""), ("", "-", "", ""), ("a+a", "!", "*a", ""), ("a", "!", "+a", "*a"), ("", "-", "a*", "a"),
        ];
        let gs = vec![[1, 2, 3, 2], [2, 1, 3, 1], [1, 1, 1, 1], [3, 2, 1, 1], [1, 3, 2, 2]].into_iter().map(|p| (table(p), shapes.clone())).collect();
        res.push(texts_family(tier, "stretched", gs, tier.pick(1024, 4096)));
    }
    // Many operators.
    res.push(grammars_family(tier, "many-operators", "binary, prefix and postfix operators, one priority each", 6, tier.pick(64, 128), |kind, n| {
        let word = |k: usize| seq(std::iter::repeat(E::T(PLUS)).take(k).chain(Some(E::T(MINUS))).collect());
        let mut t = Table { atoms: vec![E::R(1)], prefixes: vec![], infixes: vec![] };
        for k in 0..n {
            let p = match kind % 3 { 0 => k + 1, 1 => n - k, _ => k / 2 + 1 } as u32;
            let ty = [N2, N3, N4, N5][k % 4];
            match (kind / 3, k % 3) {
                (0, _) | (_, 0) => t.infixes.push((ty, word(k), p, true)),
                (_, 1) => t.infixes.push((ty, word(k), p, false)),
                _ => t.prefixes.push((ty, word(k), p)),
            }
        }
        let op = |k: usize| format!("{}-", "+".repeat(k));
        let mut texts = vec![String::from("a"), (0..n).map(|k| format!("a{}", op(k))).collect::<String>() + "a", (0..n).rev().map(|k| format!("a{}", op(k))).collect::<String>() + "a"];
        for j in (0..n).filter(|j| n <= 12 || j % 7 == 0) {
            for k in (0..n).filter(|k| n <= 12 || k % 5 == 0 || *k + 1 == n) {
                texts.push(format!("a{}a{}a", op(j), op(k)));
                texts.push(format!("{}a{}a", op(j), op(k)));
                texts.push(format!("a{}{}a{}", op(j), op(k), op(j)));
            }
        }
        (vec![Rule::Pub(FILE, E::Pratt(t)), Rule::Pub(N1, E::T(A))], texts)
    }));
    // Priorities of any size.
    {
        let lexer = char_lexer();
        let texts = texts(&["a", "+", "*"], tier.pick(5, 6));
        let mut ps: Vec<u32> = vec![0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, u32::max_value() - 2, u32::max_value() - 1];
        for k in vec![7, 8, 15, 16, 31] {
            ps.extend(vec![(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        let k = ps.len();
        res.push(Family::new(
            "priorities",
            format!("pairs of {} priorities x kinds of two operators; {} texts", k, texts.len()),
            (k * k * 9) as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let mut t = Table { atoms: vec![E::R(1)], prefixes: vec![], infixes: vec![] };
                for &(tok, ty) in &[(PLUS, N2), (STAR, N3)] {
                    op(r.take(3), tok, ps[r.take(k)], &mut t, ty);
                }
                let rules = vec![Rule::Pub(FILE, E::Pratt(t)), Rule::Pub(N1, E::T(A))];
                Gram::new(&lexer, rules).explore(texts.iter().map(|s| s.as_str()), ctx)
            },
        ));
    }
    res
}
