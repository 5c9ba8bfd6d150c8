//! Extending the selection.

use std::sync::Arc;

use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, TextEdit, TextRange};
use mccore::util::fnv_mix;
use mccore::{Ctx, Family, Tier};
use mcparse::hist::char_cuts;
use mcparse::tree::M;

use crate::texts::{self, Depth};

/// Any file, with the services that do not depend on the language.
struct Plain(File);

impl EditorFileImpl for Plain {
    fn parse(_: &str) -> Self {
        unreachable!()
    }
    fn edit(&self, _: &TextEdit) -> Self {
        unreachable!()
    }
    fn syntax_tree(&self) -> String {
        String::new()
    }
    fn file(&self) -> &File {
        &self.0
    }
}

fn range(a: usize, b: usize) -> TextRange {
    TextRange::from_to(tu(a as u32), tu(b as u32))
}

/// The smallest node range that is strictly larger than `a..b`.
fn larger(m: &M, a: usize, b: usize) -> Option<(usize, usize)> {
    m.nodes
        .iter()
        .map(|n| (n.start, n.end))
        .filter(|&(s, e)| s <= a && b <= e && (s, e) != (a, b))
        .min_by_key(|&(s, e)| e - s)
}

fn judge_cursor(m: &M, o: usize, got: Option<(usize, usize)>) -> Result<(), String> {
    let leaves = m.leaves_at(0, o);
    let got = match got {
        None if m.text.is_empty() => return Ok(()),
        None => return Err("nothing is offered".to_owned()),
        Some(r) => r,
    };
    let tokens: Vec<_> = leaves.iter().cloned().filter(|&l| !m.skipped(l)).collect();
    if !tokens.is_empty() {
        return if tokens.iter().any(|&l| m.range(l) == got) {
            Ok(())
        } else {
            Err(format!("{:?} is not the token at the cursor", got))
        };
    }
    if leaves.iter().any(|&l| m.range(l) == got) {
        return Ok(());
    }
    // In the indentation of a line: what the rest of the line belongs to.
    let rest = &m.text[o..];
    // The newline may belong to a comment before, so that the cursor is at the
    // end of that comment; then the line may be empty, or start with blanks.
    if m.text[..o].ends_with('\n') {
        let end = o + rest.find('\n').unwrap_or_else(|| rest.len());
        if m.range(m.covering(0, o, end)) == got {
            return Ok(());
        }
    }
    let start = o + rest.len() - rest.trim_start().len();
    if m.text[o..start].contains('\n') || !m.text[..o].trim_end_matches(|c: char| c.is_whitespace() && c != '\n').ends_with('\n') {
        return Err(format!("{:?} is not at the cursor", got));
    }
    let end = m.text[start..].find('\n').map_or(m.text.len(), |n| start + n);
    if m.range(m.covering(0, start, end)) == got {
        Ok(())
    } else {
        Err(format!("{:?} is not the construct on the line", got))
    }
}

fn judge_text(editor: &Plain) -> Result<u64, String> {
    let m = M::new(&editor.0);
    let cuts = char_cuts(&m.text);
    let ext = |a, b| {
        editor.extend_selection(range(a, b)).map(|r| (r.start().utf8_len() as usize, r.end().utf8_len() as usize))
    };
    let mut h = 1;
    for (i, &a) in cuts.iter().enumerate() {
        let got = ext(a, a);
        judge_cursor(&m, a, got).map_err(|e| format!("cursor {}: {}", a, e))?;
        for &b in &cuts[i + 1..] {
            let got = ext(a, b);
            let want = larger(&m, a, b);
            if got != want {
                return Err(format!("selection {}..{}: got {:?}, not {:?}", a, b, got, want));
            }
            h = fnv_mix(h, got.map_or(0, |(s, e)| (s * 1000 + e) as u64));
        }
    }
    Ok(h)
}

fn check(name: &str, file: File, text: &str, ctx: &mut Ctx) {
    let editor = Plain(file);
    ctx.state();
    let n = char_cuts(text).len() as u64;
    ctx.count("selections", n * (n + 1) / 2);
    ctx.check(&|| format!("{}: {:?}", name, text), || judge_text(&editor));
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    for s in mcparse::langs::all() {
        let s = Arc::new(s);
        let big = s.name == "rust" || s.name == "fall";
        let d = Depth {
            short: if s.name == "rust" { tier.pick(1, 2) } else if big { 2 } else { tier.pick(3, 4) },
            long: if s.name == "rust" { tier.pick(2, 3) } else if big { tier.pick(3, 4) } else { tier.pick(4, 5) },
            sample: tier.pick(130, 300),
            all_pieces: tier.pick(false, true),
        };
        res.extend(texts::families(
            &s,
            &[],
            d,
            Arc::new(|s, text, ctx| {
                let file = (s.lang)().parse(text.to_owned());
                check(s.name, file, text, ctx)
            }),
        ));
    }
    for name in &["rust", "fall"] {
        res.push(texts::stretched(
            &texts::shipped(name),
            tier.pick(24, 40),
            tier.pick(32, 64),
            Arc::new(|s, text, ctx| {
                let file = (s.lang)().parse(text.to_owned());
                check(s.name, file, text, ctx)
            }),
        ));
    }
    // Tree shapes that the shipped languages do not have.
    let n = tier.pick(4, 5);
    let lexer = mcparse::lang::char_lexer();
    let binders = mcparse::c10::binders();
    let grammars = mcparse::c10::grammars();
    let texts = mcparse::gram::texts(&["a", "b", "c", " ", "é", "\n "], n);
    let size = grammars.len() as u64;
    res.push(Family::new(
        "shapes",
        format!("{} grammars, all texts of up to {} pieces", grammars.len(), n),
        size,
        move |i, ctx| {
            let i = i as usize;
            let g = mcparse::gram::Gram::with_binder(&lexer, grammars[i].clone(), binders[i % binders.len()].1);
            let name = mcparse::lang::show_rules(&g.rules);
            for t in &texts {
                if g.spec(t).is_ok() {
                    check(&name, g.lang.parse(t.clone()), t, ctx);
                }
            }
        },
    ));
    res
}
