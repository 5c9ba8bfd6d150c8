//! Long and deep texts, and large grammars.

use mccore::{Family, Tier};

use crate::gram::*;
use crate::lang::*;

pub const STEPS: u32 = 3_000_000;

/// Texts: the unit so many times between the others.
pub type Shape = (&'static str, &'static str, &'static str, &'static str);

/// All sizes up to a bound, and those around powers of two.
pub fn sizes(all: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut p = 1;
    while p <= top {
        v.extend((p.max(2) - 2..=p + 2).filter(|&n| n > all));
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

pub fn text(&(open, unit, close, after): &Shape, n: usize) -> String {
    format!("{}{}{}{}", open, unit.repeat(n), close.repeat(if after.is_empty() { 1 } else { n }), after)
}

/// Grammars with the texts that are stretched; a shape with something after repeats the
/// closing part as often as the unit.
pub fn texts_family(tier: Tier, name: &str, grammars: Vec<(Vec<Rule>, Vec<Shape>)>, top: usize) -> Family {
    let lexer = char_lexer();
    let sizes = sizes(tier.pick(48, 140), top);
    let cases: Vec<(usize, usize)> = grammars
        .iter()
        .enumerate()
        .flat_map(|(g, (_, shapes))| (0..shapes.len()).map(move |s| (g, s)))
        .collect();
    let k = sizes.len();
    Family::new(
        name,
        format!("{} grammars, {} shapes of texts stretched to each of {} sizes up to {}", grammars.len(), cases.len(), k, sizes[k - 1]),
        (cases.len() * k) as u64,
        move |i, ctx| {
            let (g, s) = cases[i as usize % cases.len()];
            let n = sizes[i as usize / cases.len()];
            let (rules, shapes) = &grammars[g];
            let t = text(&shapes[s], n);
            Gram::new(&lexer, rules.clone()).explore_bounded(Some(t.as_str()), STEPS, ctx)
        },
    )
}

/// Grammars of every size.
pub fn grammars_family<F>(tier: Tier, name: &str, what: &str, kinds: usize, top: usize, make: F) -> Family
where
    F: Fn(usize, usize) -> (Vec<Rule>, Vec<String>) + Send + Sync + 'static,
{
    let lexer = char_lexer();
    let sizes = sizes(tier.pick(40, 90), top);
    let k = sizes.len();
    Family::new(
        name,
        format!("{}: {} kinds of grammars of each of {} sizes up to {}", what, kinds, k, sizes[k - 1]),
        (kinds * k) as u64,
        move |i, ctx| {
            let n = sizes[i as usize / kinds];
            let (rules, texts) = make(i as usize % kinds, n);
            Gram::new(&lexer, rules).explore_bounded(texts.iter().map(|s| s.as_str()), STEPS, ctx)
        },
    )
}
