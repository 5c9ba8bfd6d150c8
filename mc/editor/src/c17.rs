//! Formatting of grammars.

use std::sync::Arc;

use fall_editor::EditorFileImpl;
use lang_fall::FileWithAnalysis;
use mccore::util::fnv;
use mccore::{Ctx, Family, Tier};
use mcparse::tree::M;

use crate::texts::{self, Depth};

/// Types, nesting and texts without whitespace.
fn structure(m: &M) -> Vec<String> {
    let mut res = Vec::new();
    fn go(m: &M, i: usize, depth: usize, res: &mut Vec<String>) {
        let name = m.name(i);
        if name == "WHITESPACE" {
            return;
        }
        if m.nodes[i].children.is_empty() {
            res.push(format!("{} {} {:?}", depth, name, m.text_of(i)));
        } else {
            res.push(format!("{} {}", depth, name));
        }
        for &c in &m.nodes[i].children {
            go(m, c, depth + 1, res);
        }
    }
    go(m, 0, 0, &mut res);
    res
}

/// Comments and tokens with the number of line breaks before them.
fn lines(m: &M) -> Vec<(usize, String)> {
    let mut breaks = 0;
    let mut res = Vec::new();
    for i in m.all() {
        if m.is_leaf(i) {
            if m.name(i) == "WHITESPACE" {
                breaks += m.text_of(i).matches('\n').count();
            } else {
                res.push((breaks, m.text_of(i).to_owned()));
                breaks = 0;
            }
        }
    }
    res.push((breaks, String::new()));
    res
}

fn style(m: &M) -> Result<(), String> {
    for i in m.all() {
        let p = match m.nodes[i].parent {
            Some(p) => p,
            None => continue,
        };
        // Empty nodes do not separate anything.
        let kids: Vec<usize> = m.nodes[p].children.iter().cloned().filter(|&k| !m.text_of(k).is_empty()).collect();
        let at = match kids.iter().position(|&k| k == i) {
            Some(at) => at,
            None => continue,
        };
        let prev = if at > 0 { Some(kids[at - 1]) } else { None };
        let next = kids.get(at + 1).cloned();
        let blank = |k: usize| m.name(k) == "WHITESPACE";
        let one_line = |k: usize| !m.text_of(k).contains('\n');
        match (m.name(p), m.name(i)) {
            ("BLOCK_EXPR", "PIPE") => {
                for &k in prev.iter().chain(next.iter()) {
                    if !blank(k) || one_line(k) && m.text_of(k) != " " {
                        return Err(format!("no single space around the bar at {}", m.nodes[i].start));
                    }
                }
            }
            ("CALL_EXPR", "L_ANGLE") => {
                if next.map_or(false, |k| blank(k) && one_line(k)) {
                    return Err(format!("a space after the bracket at {}", m.nodes[i].start));
                }
            }
            ("CALL_EXPR", "R_ANGLE") => {
                if prev.map_or(false, |k| blank(k) && one_line(k)) {
                    return Err(format!("a space before the bracket at {}", m.nodes[i].start));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn judge(text: &str) -> Result<u64, String> {
    let file = FileWithAnalysis::parse(text);
    let m = M::new(file.file());
    let edit = file.reformat();
    let new = edit.apply(file.file().text()).to_string();
    let context = |e: String| format!("formatted as {:?}: {}", new, e);
    let file2 = FileWithAnalysis::parse(&new);
    let m2 = M::new(file2.file());
    let (a, b) = (structure(&m), structure(&m2));
    if a != b {
        let d = a.iter().zip(&b).find(|(x, y)| x != y);
        return Err(context(format!("the structure changed at {:?}", d)));
    }
    if lines(&m) != lines(&m2) {
        return Err(context("line breaks changed".to_owned()));
    }
    let edited = file.edit(&edit);
    if edited.file().text().to_string() != new {
        return Err(context("the edited file has another text".to_owned()));
    }
    style(&m2).map_err(context)?;
    let again = file2.reformat().apply(file2.file().text()).to_string();
    if again != new {
        return Err(context(format!("formatted again as {:?}", again)));
    }
    Ok(fnv(new.as_bytes()))
}

pub fn families(tier: Tier) -> Vec<Family> {
    let s = texts::shipped("fall");
    let extra: Vec<String> = [
        "rule a { b|c  |  d| 'e' |{f|g}* | < h i {j|k } >? | } rule b(x, y) { x y | }",
        "pub rule a {\n b c // d\n |\n e f? | // g\n h }\n\n#[x,y(1)] rule b { < m a < b > , < c > > }\nrule c { | a || b |}",
        "rule a { < // c\n b // d\n > | <\n b\n > |\t<\tb\t> }",
        "rule a{<b>|<b >|< b>|<>|< >|{|}|{ | }|{  ||  }}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let each: texts::Each = Arc::new(|_, text, ctx: &mut Ctx| {
        ctx.state();
        ctx.check(&|| format!("format {:?}", text), || judge(text));
    });
    let mut res = texts::families(
        &s,
        &extra,
        Depth { short: 2, long: tier.pick(4, 5), sample: 1000, all_pieces: true },
        each.clone(),
    );
    res.push(texts::stretched(&s, 40, tier.pick(128, 512), each.clone()));
    // Everything that can stand next to bars and brackets.
    let mut bars = mcparse::langs::all().into_iter().find(|s| s.name == "fall").unwrap();
    bars.name = "spacing";
    bars.samples = Vec::new();
    bars.pieces = vec!["|", "<", ">", " ", "  ", "\n", "// c\n", "b", "{", "}"];
    bars.core = vec!["|", "<b", ">", "  ", "b"];
    bars.frames = vec![("rule a {", "}"), ("rule a { b", "b } rule b {}")];
    res.extend(texts::families(
        &Arc::new(bars),
        &[],
        Depth { short: tier.pick(5, 6), long: tier.pick(7, 8), sample: 0, all_pieces: false },
        each,
    ));
    res
}
