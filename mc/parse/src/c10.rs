//! Whitespace and comments: invisible, and bound as declared.

use std::sync::Arc;

use fall_tree::{File, Node, NodeType};
use mccore::util::{combinations, Radix};
use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;
use crate::langs;
use crate::spec::{self, Tree};
use crate::stretch::{self, sizes, Shape};

fn ty_of(t: NodeType) -> u32 {
    t.0
}

/// Everything adjacent to `N1` belongs to it, on both sides.
fn greedy(ty: NodeType, v: Vec<(NodeType, &str)>, _: bool) -> usize {
    if ty_of(ty) == N1 { v.len() } else { 0 }
}
/// Leading comments up to a blank line belong to any node.
fn comments(_: NodeType, v: Vec<(NodeType, &str)>, leading: bool) -> usize {
    if !leading {
        return 0;
    }
    v.iter().rev().take_while(|(t, s)| ty_of(*t) == COMMENT || !s.contains('\n')).count()
}
/// The first trailing token belongs to `N2`.
fn trailing(ty: NodeType, v: Vec<(NodeType, &str)>, leading: bool) -> usize {
    if !leading && ty_of(ty) == N2 { v.len().min(1) } else { 0 }
}
fn outer(ty: NodeType, v: Vec<(NodeType, &str)>, leading: bool) -> usize {
    match (ty_of(ty), leading) {
        (N2, true) => v.len().min(2),
        (N3, false) => v.len(),
        (N1, true) => v.len().min(1),
        (0, _) => v.len().min(1),
        _ => 0,
    }
}

pub fn binders() -> Vec<(&'static str, Binder)> {
    vec![("none", no_binder), ("greedy", greedy), ("comments", comments), ("trailing", trailing), ("mixed", outer)]
}

pub fn grammars() -> Vec<Vec<Rule>> {
    let n = |t, e| Rule::Pub(t, e);
    vec![
        vec![n(FILE, rep(E::R(1))), n(N1, seq(vec![E::T(A), opt(E::R(2))])), n(N2, or(vec![E::T(B), seq(vec![E::T(C), E::R(1)])]))],
        vec![n(FILE, rep(or(vec![E::R(1), E::R(2)]))), n(N1, E::Seq(vec![E::T(A), E::T(B), E::R(2)], Some(1))), n(N2, seq(vec![E::T(C), rep(E::R(1))]))],
        vec![n(FILE, seq(vec![E::R(1), E::R(2), E::R(1)])), n(N1, opt(E::T(A))), n(N2, rep(E::R(3))), n(N3, E::T(B))],
        vec![n(FILE, rep(or(vec![E::Ctx(X1, "ab"), E::Ctx(X2, "aa"), E::R(1)]))), n(N1, E::Any)],
        vec![n(FILE, rep(or(vec![E::R(1), E::R(2)]))), n(N1, seq(vec![E::Ctx(X1, "aba"), opt(E::R(2))])), n(N2, seq(vec![E::Ctx(X2, "ab"), E::Ctx(X1, "c")]))],
        vec![n(FILE, rep(E::Skip(bx(E::T(A)), bx(E::R(1))))), n(N1, E::Seq(vec![E::T(A), E::T(B)], Some(1)))],
        vec![n(FILE, rep(E::R(1))), n(N1, E::Layer(bx(seq(vec![E::Any, rep(seq(vec![not(E::T(C)), E::Any])), E::T(C)])), bx(rep(E::R(2))))), n(N2, E::T(A))],
        vec![n(FILE, E::R(1)), Rule::Private(E::Pratt(Table {
            atoms: vec![E::R(2)],
            prefixes: vec![(N4, E::T(B), 3)],
            infixes: vec![(N3, E::T(B), 1, true), (N1, E::T(C), 2, false)],
        })), n(N2, E::T(A))],
        vec![n(FILE, rep(or(vec![E::Inject(bx(rep(E::R(1))), bx(E::R(2))), E::Any]))), n(N1, E::T(A)), n(N2, seq(vec![E::T(B), opt(E::R(3))])), n(N3, seq(vec![]))],
        vec![n(FILE, E::T(A))],
        vec![n(FILE, seq(vec![])), n(N1, seq(vec![]))],
        vec![n(FILE, seq(vec![E::R(1), E::R(1), opt(E::R(2)), E::R(1)])), n(N1, seq(vec![])), n(N2, seq(vec![E::R(1), E::T(A), E::R(1)]))],
        vec![n(FILE, rep(E::R(1))), Rule::Replaceable(N1, seq(vec![E::T(A), opt(E::R(2))])), Rule::Replaces(N2, seq(vec![E::T(B), E::R(3)])), n(N3, opt(E::T(C)))],
        vec![n(FILE, rep(E::R(1))), Rule::Private(E::Cached(bx(E::R(2)))), n(N1, seq(vec![E::T(A), rep(E::R(3))])), n(N2, or(vec![E::T(B), E::T(C)]))],
    ]
}

/// Texts with one run of up to `max` pieces of whitespace and comments at any
/// place of each of the words.
pub fn long_runs(words: &[String], max: usize) -> Vec<String> {
    let mut res = Vec::new();
    for word in words {
        for at in 0..=word.len() {
            for n in 6..=max {
                for kind in 0..2 {
                    let mut text = word[..at].to_owned();
                    for k in 0..n {
                        text.push_str(if (k + kind) % 2 == 0 { " " } else { "#" });
                    }
                    text.push_str(&word[at..]);
                    res.push(text);
                }
            }
        }
    }
    res
}

/// The tree of a file without whitespace.
pub fn bare(n: Node, ws: &dyn Fn(u32) -> bool) -> Option<Tree> {
    if spec::is_leaf(n) {
        if ws(n.ty().0) {
            return None;
        }
        let r = n.range();
        return Some(Tree::Leaf(n.ty().0, r.start().utf8_len() as u32, r.len().utf8_len() as u32));
    }
    Some(Tree::Node(n.ty().0, n.children().filter_map(|c| bare(c, ws)).collect()))
}

/// Tokens and whitespace in the order of the text.
pub fn raw(n: Node, out: &mut Vec<(u32, u32, u32)>) {
    if spec::is_leaf(n) {
        let r = n.range();
        out.push((n.ty().0, r.start().utf8_len() as u32, r.len().utf8_len() as u32));
    } else {
        for c in n.children() {
            raw(c, out);
        }
    }
}

/// Node types and token texts, without positions.
fn outline(n: Node, ws: &dyn Fn(u32) -> bool, out: &mut String) {
    if spec::is_leaf(n) {
        if !ws(n.ty().0) {
            out.push_str(&format!("{}:{:?} ", n.ty().0, n.text().to_string()));
        }
    } else {
        out.push_str(&format!("{}[", n.ty().0));
        for c in n.children() {
            outline(c, ws, out);
        }
        out.push_str("] ");
    }
}

fn binder_of(lang: &str, file: &File) -> Box<dyn Fn(u32, &[(u32, &str)], bool) -> usize> {
    let name = |n: &str| {
        let l = file.language().clone();
        (1..400u32).find(|t| {
            mccore::guarded(|| Ok(l.node_type_info(NodeType(*t)).name == n)).unwrap_or(false)
        })
    };
    if lang == "rust" {
        // A comment right before a structure belongs to it.
        let s = name("STRUCT_DEF").unwrap();
        let lc = name("LINE_COMMENT").unwrap();
        let w = name("WHITESPACE").unwrap();
        Box::new(move |ty, run, leading| {
            if ty != s || !leading {
                return 0;
            }
            let mut n = 0;
            for (t, text) in run.iter().rev() {
                if *t == lc || (*t == w && !text.contains('\n')) {
                    n += 1;
                } else {
                    break;
                }
            }
            n
        })
    } else {
        Box::new(|_, _, _| 0)
    }
}

/// Checks where the whitespace of a file is.
pub fn check_placement(lang: &str, file: &File, text: &str) -> Result<(), String> {
    let ws = |t: u32| file.language().node_type_info(NodeType(t)).whitespace_like;
    let tree = bare(file.root(), &ws).unwrap();
    let mut all = Vec::new();
    raw(file.root(), &mut all);
    let binder = binder_of(lang, file);
    let file_ty = file.root().ty().0;
    let want = spec::place_whitespace(&tree, &all, &ws, &|ty, run, leading| {
        if ty == file_ty {
            return run.len();
        }
        let v: Vec<(u32, &str)> = run.iter().map(|&(t, s, l)| (t, &text[s as usize..(s + l) as usize])).collect();
        binder(ty, &v, leading)
    });
    let got = spec::flatten_file(file, &|_| true);
    if want != got {
        let nm = |t: u32| file.language().node_type_info(NodeType(t)).name.to_owned();
        return Err(format!("expected {}\n  got {}", spec::show_flat(&want, &nm), spec::show_flat(&got, &nm)));
    }
    Ok(())
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // All placements of spaces in all texts.
    {
        let lexer = char_lexer();
        let gs = grammars();
        let bs = binders();
        let texts = texts(&["a", "b", "c", " ", "\n", "#", "?"], tier.pick(5, 6));
        let n = gs.len() * bs.len();
        let block = 2000;
        let blocks = (texts.len() + block - 1) / block;
        res.push(Family::new(
            "binders",
            format!("{} grammars x {} binders; {} texts with spaces, line breaks, comments and unknown characters", gs.len(), bs.len(), texts.len()),
            (n * blocks) as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = Gram::with_binder(&lexer, gs[r.take(gs.len())].clone(), bs[r.take(bs.len())].1);
                let from = r.take(blocks) * block;
                g.explore(texts[from..(from + block).min(texts.len())].iter().map(|s| s.as_str()), ctx);
            },
        ));
    }
    // Long runs of whitespace and comments.
    {
        let lexer = char_lexer();
        let gs = grammars();
        let bs = binders();
        let max = tier.pick(40, 140);
        let texts = long_runs(&texts(&["a", "b", "c"], 2), max);
        let n = gs.len() * bs.len();
        res.push(Family::new(
            "long-runs",
            format!("{} grammars x {} binders; {} texts with a run of 6 to {} pieces of whitespace", gs.len(), bs.len(), texts.len(), max),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = Gram::with_binder(&lexer, gs[r.take(gs.len())].clone(), bs[r.take(bs.len())].1);
                g.explore(texts.iter().map(|s| s.as_str()), ctx);
            },
        ));
    }
    // Long texts with whitespace all over.
    {
        let lexer = char_lexer();
        let gs = grammars();
        let bs = binders();
        let sizes = sizes(tier.pick(24, 80), tier.pick(256, 1024));
        let shapes: Vec<Shape> = vec![
            ("", "a b", " ", ""), ("", "a#b", "c", ""), ("b", "ca ", "#a", ""), ("", "a ", "b#", ""), ("\n", "c \n#", "a", "b"), ("", "ab#\n", " ", ""), ("#a", " #", "b", ""), (" ", "c", " #b", "a"),
            ("", "ba\n\n", "#", ""), ("a", "?#", " b", ""),
        ];
        let n = gs.len() * bs.len() * shapes.len() * sizes.len();
        res.push(Family::new(
            "stretched",
            format!("{} grammars x {} binders; {} shapes of texts stretched to each of {} sizes up to {}", gs.len(), bs.len(), shapes.len(), sizes.len(), sizes[sizes.len() - 1]),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = Gram::with_binder(&lexer, gs[r.take(gs.len())].clone(), bs[r.take(bs.len())].1);
                let t = stretch::text(&shapes[r.take(shapes.len())], sizes[r.0 as usize]);
                g.explore_bounded(Some(t.as_str()), stretch::STEPS, ctx);
            },
        ));
    }
    // Whitespace at every subset of the gaps does not change the structure.
    {
        let lexer = char_lexer();
        let gs = grammars();
        let bs = binders();
        let words = texts(&["a", "b", "c"], tier.pick(5, 6));
        let n = gs.len() * bs.len();
        res.push(Family::new(
            "gaps",
            format!("{} grammars x {} binders; {} texts; whitespace and comments at every subset of the gaps", gs.len(), bs.len(), words.len()),
            n as u64,
            move |i, ctx| {
                let mut r = Radix(i);
                let g = Gram::with_binder(&lexer, gs[r.take(gs.len())].clone(), bs[r.take(bs.len())].1);
                let ws = |t: u32| t == WS || t == COMMENT;
                let contextual = show_rules(&g.rules).contains('\'');
                for word in &words {
                    let base = g.lang.parse(word.clone());
                    let mut want = String::new();
                    outline(base.root(), &ws, &mut want);
                    for mask in 1u32..1 << (word.len() + 1) {
                        let mut text = String::new();
                        for k in 0..=word.len() {
                            if mask >> k & 1 == 1 {
                                text.push_str([" ", "#\n", "\n #"][(k + mask as usize) % 3]);
                            }
                            if k < word.len() {
                                text.push_str(&word[k..=k]);
                            }
                        }
                        ctx.state();
                        ctx.check(&|| g.key(&text), || {
                            if !contextual {
                                let file = g.lang.parse(text.clone());
                                let mut got = String::new();
                                outline(file.root(), &ws, &mut got);
                                if got != want {
                                    return Err(format!("without whitespace: {}\n  with: {}", want, got));
                                }
                            }
                            match g.spec(&text) {
                                Ok(e) => g.compare(&text, &e),
                                Err(_) => Ok(0),
                            }
                        });
                    }
                }
            },
        ));
    }
    // Shipped languages.
    for s in langs::all() {
        let s = Arc::new(s);
        let fills: Vec<&'static str> = match s.name {
            "fall" => vec![" ", "\n\n", "//c\n", " //c\n "],
            "rust" => vec![" ", "\n\n", "//c\n", "/*c*/", " //c\n\n//d\n", "\t/*/**/*/\n"],
            _ => vec![" ", "\n \n"],
        };
        let places: Vec<(usize, usize)> = s
            .samples
            .iter()
            .enumerate()
            .flat_map(|(i, t)| (0..langs::token_cuts(&(s.lang)().parse(t.clone())).len()).map(move |w| (i, w)))
            .collect();
        res.push(Family::new(
            format!("{}-gaps", s.name),
            format!("{} samples; each of {} kinds of whitespace added at every token boundary, and at every pair of boundaries up to 3 apart; placement of all whitespace", s.samples.len(), fills.len()),
            places.len() as u64,
            move |i, ctx| {
                let (si, w) = places[i as usize];
                let sample = &s.samples[si];
                let lang = (s.lang)();
                let file = lang.parse(sample.clone());
                let ws = |t: u32| lang.node_type_info(NodeType(t)).whitespace_like;
                let mut want = String::new();
                outline(file.root(), &ws, &mut want);
                let cuts = langs::token_cuts(&file);
                let mut leaves = Vec::new();
                raw(file.root(), &mut leaves);
                for c in combinations(3, 1) {
                    let second = c.first().map(|d| w + d + 1);
                    for (k, fill) in fills.iter().enumerate() {
                        let mut text = String::new();
                        let mut at = 0;
                        for (n, &cut) in cuts.iter().enumerate() {
                            text.push_str(&sample[at..cut]);
                            at = cut;
                            // After a comment without its line break, or next to an
                            // error token, the inserted text would be a part of it.
                            // So would a text that starts with a slash after a slash.
                            let safe = |i: usize| {
                                leaves.get(i).map_or(true, |l| {
                                    let t = &sample[l.1 as usize..(l.1 + l.2) as usize];
                                    l.0 != 0 && !(ws(l.0) && t.starts_with('/')) && !t.ends_with('/') && !t.starts_with('/')
                                })
                            };
                            if (n == w || Some(n) == second) && (n == 0 || safe(n - 1)) && safe(n) {
                                text.push_str(if n == w { fill } else { fills[(k + 1) % fills.len()] });
                            }
                        }
                        ctx.state();
                        ctx.check(&|| format!("{}: {:?}", s.name, text), || {
                            let file = lang.parse(text.clone());
                            crate::shape::check_shape(&file, &text)?;
                            let mut got = String::new();
                            outline(file.root(), &ws, &mut got);
                            if got != want {
                                return Err(format!("without the whitespace: {}\n  with it: {}", want, got));
                            }
                            check_placement(s.name, &file, &text)?;
                            Ok(mccore::util::fnv(text.as_bytes()))
                        });
                    }
                }
            },
        ));
    }
    res
}
