//! Exploration of edit histories: every sequence of edits up to a depth.

use std::collections::HashMap;

use fall_tree::{tu, File, Language, TextBuf, TextEdit, TextEditOp, TextRange};
use mccore::util::fnv_mix;
use mccore::Ctx;

use crate::shape::check_shape;
use crate::spec;

/// Replacements at ascending, disjoint places.
pub type Change = Vec<(usize, usize, String)>;

pub fn to_edit(text: &str, change: &Change, style: u32) -> TextEdit {
    let mut ops = Vec::new();
    let mut at = 0;
    let mut copy = |ops: &mut Vec<TextEditOp>, from: usize, to: usize| {
        if from < to {
            ops.push(TextEditOp::Copy(TextRange::from_to(tu(from as u32), tu(to as u32))));
        }
    };
    for (start, end, text) in change {
        copy(&mut ops, at, *start);
        if !text.is_empty() {
            ops.push(TextEditOp::Insert(TextBuf::from(text.clone())));
        }
        at = *end;
    }
    copy(&mut ops, at, text.len());
    if style == 1 {
        // As produced from edits of nodes.
        ops.push(TextEditOp::Copy(TextRange::from_len(tu(text.len() as u32), tu(0))));
    }
    TextEdit { ops }
}

pub fn apply(text: &str, change: &Change) -> String {
    let mut res = String::new();
    let mut at = 0;
    for (start, end, ins) in change {
        res.push_str(&text[at..*start]);
        res.push_str(ins);
        at = *end;
    }
    res.push_str(&text[at..]);
    res
}

pub fn char_cuts(text: &str) -> Vec<usize> {
    let mut v: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
    v.push(text.len());
    v
}

/// All single replacements: a span between two cuts, at most `max_del` cuts
/// apart, becomes one of the pieces (or nothing).
pub fn single_changes(text: &str, cuts: &[usize], pieces: &[String], max_del: usize) -> Vec<Change> {
    let mut res = Vec::new();
    for i in 0..cuts.len() {
        for j in i..cuts.len().min(i + max_del + 1) {
            let (s, e) = (cuts[i], cuts[j]);
            if s < e {
                res.push(vec![(s, e, String::new())]);
            }
            for p in pieces {
                if &text[s..e] != p.as_str() {
                    res.push(vec![(s, e, p.clone())]);
                }
            }
        }
    }
    res
}

/// All pairs of disjoint single replacements.
pub fn double_changes(text: &str, cuts: &[usize], pieces: &[String], max_del: usize) -> Vec<Change> {
    let singles = single_changes(text, cuts, pieces, max_del);
    let mut res = Vec::new();
    for a in &singles {
        for b in &singles {
            if a[0].1 < b[0].0 {
                res.push(vec![a[0].clone(), b[0].clone()]);
            }
        }
    }
    res
}

pub struct Bounds {
    /// Number of edits in a row.
    pub depth: u32,
    /// Whether the first edit may consist of two replacements.
    pub doubles: bool,
    pub max_del: usize,
}

pub struct History<'a> {
    pub lang: &'a Language,
    pub grammar: String,
    pub pieces: &'a [String],
    pub bounds: Bounds,
    /// Where texts may be cut.
    pub cuts: &'a dyn Fn(&str) -> Vec<usize>,
    /// Texts outside of the domain are left out.
    pub domain: Option<&'a dyn Fn(&str) -> bool>,
    /// Only the shape of the edited file is judged.
    pub shape_only: bool,
    /// Explore only this one of the first edits.
    pub only_first: Option<usize>,
    fresh: HashMap<String, (Vec<u64>, u64, bool)>,
}

impl<'a> History<'a> {
    pub fn new(
        lang: &'a Language, grammar: String, pieces: &'a [String], bounds: Bounds, cuts: &'a dyn Fn(&str) -> Vec<usize>,
    ) -> History<'a> {
        History { lang, grammar, pieces, bounds, cuts, domain: None, only_first: None, shape_only: false, fresh: HashMap::new() }
    }

    /// The tree of the text parsed from scratch.
    fn fresh(&mut self, text: &str) -> (Vec<u64>, bool) {
        let lang = self.lang;
        let domain = self.domain;
        let r = self.fresh.entry(text.to_owned()).or_insert_with(|| {
            if domain.map_or(false, |d| !d(text)) {
                return (Vec::new(), 0, false);
            }
            let f = lang.parse(text.to_owned());
            (spec::flatten_file(&f, &|_| true), f.metrics().get("parsing ticks").unwrap_or(0), true)
        });
        (r.0.clone(), r.2)
    }

    pub fn explore(&mut self, text: &str, ctx: &mut Ctx) {
        if self.domain.map_or(false, |d| !d(text)) {
            ctx.count("outside_of_the_domain", 1);
            return;
        }
        let file = match mccore::guarded(|| Ok(self.lang.parse(text.to_owned()))) {
            Ok(f) => f,
            Err(e) => {
                ctx.transition();
                ctx.fail(format!("{} on {:?}", self.grammar, text), e);
                return;
            }
        };
        let depth = self.bounds.depth;
        let mut trail = vec![text.to_owned()];
        self.go(&file, text, depth, &mut trail, ctx);
        if self.fresh.len() > 20_000 {
            self.fresh.clear();
        }
    }

    fn go(&mut self, file: &File, text: &str, depth: u32, trail: &mut Vec<String>, ctx: &mut Ctx) {
        ctx.state();
        let cuts = (self.cuts)(text);
        let mut changes = single_changes(text, &cuts, self.pieces, self.bounds.max_del);
        if self.bounds.doubles && depth == self.bounds.depth {
            changes.extend(double_changes(text, &cuts, self.pieces, self.bounds.max_del));
        }
        for (n, change) in changes.iter().enumerate() {
            if depth == self.bounds.depth && self.only_first.map_or(false, |k| k != n) {
                continue;
            }
            let new_text = apply(text, change);
            let edit = to_edit(text, change, (n % 2) as u32);
            let want = match mccore::guarded(|| Ok(self.fresh(&new_text))) {
                Ok((w, true)) => w,
                Ok((_, false)) => {
                    ctx.count("outside_of_the_domain", 1);
                    ctx.beat();
                    continue;
                }
                Err(e) => {
                    ctx.transition();
                    ctx.fail(format!("{} on {:?}", self.grammar, new_text), e);
                    continue;
                }
            };
            let fresh_ticks = self.fresh[&new_text].1;
            let key = || {
                let mut k = self.grammar.clone();
                for t in trail.iter() {
                    k += &format!(" {:?} =>", t);
                }
                for (s, e, ins) in change {
                    k += &format!(" [{}..{} to {:?}]", s, e, ins);
                }
                k
            };
            ctx.transition();
            let shape_only = self.shape_only;
            let r = mccore::guarded(|| {
                let new_file = file.edit(&edit);
                check_shape(&new_file, &new_text)?;
                let got = spec::flatten_file(&new_file, &|_| true);
                if got != want && !shape_only {
                    let lang = self.lang;
                    let nm = |t: u32| lang.node_type_info(fall_tree::NodeType(t)).name.to_owned();
                    return Err(format!(
                        "text {:?}\n from scratch: {}\n  incremental: {}",
                        new_text,
                        spec::show_flat(&want, &nm),
                        spec::show_flat(&got, &nm)
                    ));
                }
                Ok(new_file)
            });
            match r {
                Ok(new_file) => {
                    if new_file.metrics().get("parsing ticks").unwrap_or(0) < fresh_ticks {
                        ctx.count("edits_with_reuse", 1);
                    }
                    ctx.outcome(want.iter().fold(11, |h, &x| fnv_mix(h, x)));
                    if depth > 1 {
                        trail.push(new_text.clone());
                        self.go(&new_file, &new_text, depth - 1, trail, ctx);
                        trail.pop();
                    }
                }
                Err(e) => ctx.fail(key(), e),
            }
        }
    }
}
