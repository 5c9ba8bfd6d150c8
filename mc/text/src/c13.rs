//! Tree edits turn into exactly the corresponding text change.

use std::sync::Arc;

use fall_tree::{dump_file_ws, File, FileEdit};
use mccore::util::fnv;
use mccore::{Ctx, Family, Tier};

use crate::c11::range;
use mcparse::stretch::sizes;
use crate::model::{self, Source, M};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Delete(usize),
    Replace(usize, &'static str),
    /// Replaced by another node of the same file.
    ReplaceBy(usize, usize),
    Insert(usize, &'static str),
    Substring(usize, usize, &'static str),
}

fn all_ops(m: &M, wide: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for i in 0..m.nodes.len() {
        v.push(Op::Delete(i));
        v.push(Op::Replace(i, "x"));
        v.push(Op::Insert(i, "yé"));
        if wide {
            v.push(Op::Insert(i, "("));
            v.push(Op::Replace(i, ""));
            v.push(Op::ReplaceBy(i, m.nodes.len() - 1 - i));
        }
    }
    let cuts: Vec<usize> = (0..=m.text.len()).filter(|&c| m.text.is_char_boundary(c)).collect();
    for (k, &s) in cuts.iter().enumerate() {
        for &e in &cuts[k..] {
            v.push(Op::Substring(s, e, "z"));
        }
    }
    v
}

/// What the addressed nodes turn into; `None` if the changes are in conflict.
fn model(m: &M, ops: &[Op]) -> Option<String> {
    let mut changed: Vec<Option<String>> = m.nodes.iter().map(|_| None).collect();
    let mut inserted: Vec<String> = m.nodes.iter().map(|_| String::new()).collect();
    let mut set = |i: usize, s: String| {
        if changed[i].is_some() {
            return None;
        }
        changed[i] = Some(s);
        Some(())
    };
    let mut parts = Vec::new();
    for op in ops {
        match *op {
            Op::Delete(i) => set(i, String::new())?,
            Op::Replace(i, s) => set(i, s.to_owned())?,
            Op::ReplaceBy(i, j) => set(i, m.text[m.nodes[j].start..m.nodes[j].end].to_owned())?,
            Op::Insert(i, s) => inserted[i].push_str(s),
            Op::Substring(s, e, t) => {
                let i = m.covering(0, s, e);
                let n = &m.nodes[i];
                set(i, format!("{}{}{}", &m.text[n.start..s], t, &m.text[e..n.end]))?;
                parts.push(i);
            }
        }
    }
    // The nodes of which parts are replaced are disjoint from all others.
    for &p in &parts {
        for op in ops {
            let (i, insert) = match *op {
                Op::Delete(i) | Op::Replace(i, _) | Op::ReplaceBy(i, _) => (i, false),
                Op::Insert(i, _) => (i, true),
                Op::Substring(s, e, _) => (m.covering(0, s, e), false),
            };
            if (p < i || insert && p == i) && i < m.nodes[p].last {
                if !(insert && p == i) {
                    return None;
                }
            }
        }
    }
    fn render(m: &M, i: usize, changed: &[Option<String>], inserted: &[String], out: &mut String) {
        match changed[i] {
            Some(ref s) => out.push_str(s),
            None => {
                if m.nodes[i].children.is_empty() {
                    out.push_str(&m.text[m.nodes[i].start..m.nodes[i].end]);
                }
                for &c in &m.nodes[i].children {
                    render(m, c, changed, inserted, out);
                }
            }
        }
        out.push_str(&inserted[i]);
    }
    let mut out = String::new();
    render(m, 0, &changed, &inserted, &mut out);
    Some(out)
}

fn judge(file: &File, m: &M, ops: &[Op], want: &str, parse: &dyn Fn(&str) -> File) -> Result<u64, String> {
    let mut edit = FileEdit::new(file);
    for op in ops {
        match *op {
            Op::Delete(i) => edit.delete(m.nodes[i].node),
            Op::Replace(i, s) => edit.replace_with_text(m.nodes[i].node, s.to_owned()),
            Op::ReplaceBy(i, j) => edit.replace(m.nodes[i].node, m.nodes[j].node),
            Op::Insert(i, s) => edit.insert_text_after(m.nodes[i].node, s.to_owned()),
            Op::Substring(s, e, t) => edit.replace_substring(range(s, e), t.to_owned()),
        }
    }
    let edit = edit.into_text_edit();
    let got = edit.apply(file.text()).to_string();
    if got != want {
        return Err(format!("expected {:?}, got {:?}", want, got));
    }
    let new = file.edit(&edit);
    let (a, b) = (dump_file_ws(&new), dump_file_ws(&parse(want)));
    if a != b {
        return Err(format!("parsing {:?} gives\n{}applying the edit gives\n{}", want, b, a));
    }
    Ok(fnv(want.as_bytes()))
}

fn explore(source: &Source, text: &str, depth: usize, wide: bool, ctx: &mut Ctx) {
    let file = (source.parse)(text);
    let m = M::new(&file);
    let all = all_ops(&m, wide);
    let mut ops = Vec::new();
    go(source, &file, &m, &all, 0, &mut ops, depth, ctx);

    fn go(source: &Source, file: &File, m: &M, all: &[Op], from: usize, ops: &mut Vec<Op>, depth: usize, ctx: &mut Ctx) {
        match model(m, ops) {
            None => return,
            Some(want) => {
                ctx.state();
                ctx.check(&|| format!("{}: {:?} {:?}", source.name, m.text, ops), || {
                    judge(file, m, ops, &want, &*source.parse)
                });
            }
        }
        if ops.len() == depth {
            return;
        }
        for i in from..all.len() {
            ops.push(all[i]);
            // Texts inserted after one node stay in order; otherwise the
            // order of the operations does not matter.
            go(source, file, m, all, i, ops, depth, ctx);
            ops.pop();
            if ops.len() == 1 && i < all.len() - 1 && depth == 2 {
                // Pairs in both orders.
                let rev = vec![all[i], ops[0]];
                if let Some(want) = model(m, &rev) {
                    ctx.state();
                    ctx.check(&|| format!("{}: {:?} {:?}", source.name, m.text, rev), || {
                        judge(file, m, &rev, &want, &*source.parse)
                    });
                }
            }
        }
    }
}

fn family(name: &str, bounds: String, sources: Vec<Source>, depth: usize, wide: bool) -> Family {
    let sources = Arc::new(sources);
    let cases: Vec<(usize, usize)> =
        sources.iter().enumerate().flat_map(|(i, s)| (0..s.texts.len()).map(move |k| (i, k))).collect();
    Family::new(name, format!("{} trees; {}", cases.len(), bounds), cases.len() as u64, move |i, ctx| {
        let (s, t) = cases[i as usize];
        explore(&sources[s], &sources[s].texts[t], depth, wide, ctx);
    })
}

/// Many operations at once: on every node of a kind, on every third leaf and so on, added
/// from the start, from the end, or from the middle.
fn many(tier: Tier) -> Family {
    let sources = Arc::new(model::large(&sizes(tier.pick(24, 40), 64), &sizes(tier.pick(10, 24), 32)));
    let cases: Vec<(usize, usize)> =
        sources.iter().enumerate().flat_map(|(i, s)| (0..s.texts.len()).map(move |k| (i, k))).collect();
    Family::new(
        "many",
        format!("{} trees with many children or deep nesting; up to one operation per node, in three orders", cases.len()),
        cases.len() as u64,
        move |i, ctx| {
            let (s, t) = cases[i as usize];
            let source = &sources[s];
            let file = (source.parse)(&source.texts[t]);
            let m = M::new(&file);
            let leaves: Vec<usize> = (0..m.nodes.len()).filter(|&i| m.is_leaf(i)).collect();
            let mut types: Vec<u32> = m.nodes.iter().map(|n| n.ty).collect();
            types.sort();
            types.dedup();
            let mut targets: Vec<Vec<usize>> = Vec::new();
            for step in 1..5 {
                for from in 0..step {
                    targets.push(leaves.iter().cloned().skip(from).step_by(step).collect());
                }
            }
            for &ty in &types {
                targets.push((0..m.nodes.len()).filter(|&i| m.nodes[i].ty == ty).collect());
            }
            targets.push((0..m.nodes.len()).collect());
            for target in targets {
                for kind in 0..6 {
                    let ops: Vec<Op> = target
                        .iter()
                        .enumerate()
                        .map(|(k, &i)| match if kind == 5 { k % 4 } else { kind } {
                            0 => Op::Delete(i),
                            1 => Op::Replace(i, "é1"),
                            2 => Op::Insert(i, " x"),
                            3 => Op::ReplaceBy(i, target[target.len() - 1 - k]),
                            _ => Op::Substring(m.nodes[i].start, m.nodes[i].end, "y"),
                        })
                        .collect();
                    for order in 0..3 {
                        let mut ops = ops.clone();
                        match order {
                            0 => {}
                            1 => ops.reverse(),
                            _ => {
                                let half = ops.len() / 2;
                                ops.rotate_left(half);
                            }
                        }
                        if let Some(want) = model(&m, &ops) {
                            ctx.state();
                            ctx.check(
                                &|| format!("{}: {:?} {} operations {:?}", source.name, m.text, ops.len(), ops),
                                || judge(&file, &m, &ops, &want, &*source.parse),
                            );
                        }
                    }
                }
            }
        },
    )
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![
        family(
            "pairs",
            "all pairs of deletions, replacements, insertions and replacements of ranges, in both orders".to_owned(),
            model::synthetic(tier.pick(3, 4)),
            2,
            true,
        ),
        family(
            "triples",
            "all triples of operations".to_owned(),
            model::synthetic(tier.pick(2, 3)),
            3,
            false,
        ),
        family(
            "shipped",
            "all pairs of operations".to_owned(),
            model::shipped(tier.pick(20, 30), false),
            2,
            false,
        ),
        family(
            "shipped-single",
            "all single operations".to_owned(),
            model::shipped(tier.pick(120, 400), true),
            1,
            true,
        ),
        many(tier),
    ]
}
