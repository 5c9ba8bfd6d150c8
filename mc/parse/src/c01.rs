//! The tree is a lossless cover of the text.

use std::sync::Arc;

use mccore::util::{nth_string, n_strings, Radix};
use mccore::{Family, Tier};

use crate::c04;
use crate::c10::{binders, grammars, long_runs};
use crate::gram::*;
use crate::hist::*;
use crate::lang::*;
use crate::langs;
use crate::shape::check_shape;

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // Random access to a broad set of grammars: every pair of constructs.
    {
        let lexer = char_lexer();
        let leaves = [
            E::T(A), E::R(1), E::R(2), E::Any, E::Ctx(X1, "ab"), E::Eof, seq(vec![]),
            E::Seq(vec![E::T(A), E::R(2), E::T(C)], Some(1)),
        ];
        let un: [fn(E) -> E; 7] = [
            opt, rep, not,
            |e| E::Skip(bx(E::T(B)), bx(e)),
            |e| E::Layer(bx(seq(vec![E::Any, opt(E::Any)])), bx(e)),
            |e| E::Cached(bx(e)),
            |e| E::Inject(bx(opt(E::R(3))), bx(e)),
        ];
        let bin: [fn(E, E) -> E; 2] = [seq2, or2];
        let bodies = terms(3, &leaves, &un, &bin);
        let bs = binders();
        let texts = texts(&["a", "b", "c", " ", "#", "é"], tier.pick(4, 5));
        let n = bodies.len() * bs.len();
        res.push(Family::new(
            "grammars",
            format!("{} grammar bodies x {} binders; {} texts", bodies.len(), bs.len(), texts.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let binder = bs[r.take(bs.len())].1;
                let body = bodies[r.take(bodies.len())].clone();
                let rules = vec![
                    Rule::Pub(FILE, seq(vec![body, opt(E::R(1)), opt(E::R(2))])),
                    Rule::Pub(N1, seq(vec![E::T(A), opt(E::R(2))])),
                    Rule::Pub(N2, seq(vec![E::T(B), rep(E::T(C))])),
                    Rule::Pub(N3, E::T(C)),
                ];
                let g = Gram::with_binder(&lexer, rules, binder);
                for text in &texts {
                    if g.spec(text).is_err() {
                        ctx.count("outside_of_the_domain", 1);
                        ctx.beat();
                        continue;
                    }
                    ctx.state();
                    ctx.check(&|| g.key(text), || {
                        let file = g.lang.parse(text.clone());
                        check_shape(&file, text)?;
                        tokens_kept(&file, text)?;
                        Ok(mccore::util::fnv_mix(i, mccore::util::fnv(text.as_bytes())))
                    });
                }
            },
        ));
    }
    // Long runs of whitespace and comments.
    {
        let lexer = char_lexer();
        let gs = grammars();
        let bs = binders();
        let max = tier.pick(40, 140);
        let texts = long_runs(&texts(&["a", "b", "c"], 2), max);
        let n = gs.len() * bs.len();
        res.push(Family::new(
            "long-runs",
            format!("{} grammars x {} binders; {} texts with a run of 6 to {} pieces of whitespace", gs.len(), bs.len(), texts.len(), max),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = Gram::with_binder(&lexer, gs[r.take(gs.len())].clone(), bs[r.take(bs.len())].1);
                for text in &texts {
                    ctx.state();
                    ctx.check(&|| g.key(text), || {
                        let file = g.lang.parse(text.clone());
                        check_shape(&file, text)?;
                        tokens_kept(&file, text)?;
                        Ok(mccore::util::fnv_mix(i, mccore::util::fnv(text.as_bytes())))
                    });
                }
            },
        ));
    }
    // Incremental editing.
    {
        let lexer = char_lexer();
        let pieces: Vec<String> = ["a", "b", "c", " ", "#", "é"].iter().map(|s| (*s).to_owned()).collect();
        let bs = binders();
        let texts = texts(&["a", "b", " ", "é"], 3);
        let edited = || {
            vec![
                vec![
                    Rule::Pub(FILE, rep(or(vec![E::R(1), E::R(2)]))),
                    Rule::Private(E::Cached(bx(E::R(3)))),
                    Rule::Pub(N2, E::T(B)),
                    Rule::Pub(N1, seq(vec![E::T(A), rep(E::R(2)), opt(E::T(C))])),
                ],
                vec![
                    Rule::Pub(FILE, rep(E::Skip(bx(E::T(A)), bx(E::R(1))))),
                    Rule::Private(E::Cached(bx(E::R(2)))),
                    Rule::Pub(N1, E::Seq(vec![E::Ctx(X1, "ab"), opt(E::R(1)), E::T(C)], Some(1))),
                ],
            ]
        };
        let n = bs.len() * edited().len() * texts.len();
        let depth = tier.pick(2, 3);
        res.push(Family::new(
            "edits",
            format!("{} grammars x {} binders; {} texts; {} edits in a row", edited().len(), bs.len(), texts.len(), depth),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let text = &texts[r.take(texts.len())];
                let binder = bs[r.take(bs.len())].1;
                let g = Gram::with_binder(&lexer, edited().swap_remove(r.take(edited().len())), binder);
                let bounds = Bounds { depth, doubles: false, max_del: 2 };
                let mut h = History::new(&g.lang, show_rules(&g.rules), &pieces, bounds, &char_cuts);
                h.shape_only = true;
                h.explore(text, ctx);
            },
        ));
    }
    // Shipped languages.
    for s in langs::all() {
        let s = Arc::new(s);
        // How long parsing takes is not the matter here.
        res.extend(crate::c04::long_texts(&s, tier).into_iter().filter(|f| !f.name.contains("-pumped")));
        let pieces = s.pieces.clone();
        let n = match s.pieces.len() {
            0..=10 => tier.pick(5, 6),
            11..=19 => tier.pick(4, 5),
            20..=40 => tier.pick(3, 4),
            _ => tier.pick(2, 3),
        };
        let n_texts = n_strings(pieces.len() as u64, n);
        let block = 256;
        let n_blocks = (n_texts + block - 1) / block;
        res.push(Family::new(
            format!("{}-texts", s.name),
            format!("all sequences of up to {} of {} pieces, in {} places", n, pieces.len(), s.frames.len()),
            n_blocks * s.frames.len() as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let (before, after) = s.frames[r.take(s.frames.len())];
                for k in r.0 * block..((r.0 + 1) * block).min(n_texts) {
                    let mut text = before.to_owned();
                    for d in nth_string(pieces.len() as u64, k) {
                        text.push_str(pieces[d]);
                    }
                    text.push_str(after);
                    ctx.state();
                    ctx.check(&|| format!("{}: {:?}", s.name, text), || {
                        let file = (s.lang)().parse(text.clone());
                        c04::judge(&s, &file, &text)
                    });
                }
            },
        ));
    }
    res
}

/// Leaves are tokens of the text, in order; only contextual tokens span
/// several adjacent ones.
fn tokens_kept(file: &fall_tree::File, text: &str) -> Result<(), String> {
    let mut leaves = Vec::new();
    crate::c10::raw(file.root(), &mut leaves);
    let tokens = char_lex(text);
    let mut k = 0;
    for (ty, start, len) in leaves {
        let first = k;
        while k < tokens.len() && tokens[k].1 < start + len {
            k += 1;
        }
        let covered = &tokens[first..k];
        let exact = covered.first().map_or(false, |t| t.1 == start)
            && covered.last().map_or(false, |t| t.1 + t.2 == start + len);
        let ok = exact
            && if ty == X1 || ty == X2 {
                covered.iter().all(|t| t.0 != WS && t.0 != COMMENT)
            } else {
                covered.len() == 1 && covered[0].0 == ty
            };
        if !ok {
            return Err(format!("the leaf {} at {}+{} stands for {:?}", name(ty), start, len, covered));
        }
    }
    Ok(())
}
