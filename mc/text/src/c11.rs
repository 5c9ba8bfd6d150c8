//! Text edits apply exactly the requested changes.

use fall_text::{tu, Text, TextBuf, TextEdit, TextEditBuilder, TextEditOp, TextRange};
use mccore::util::{fnv, nth_string, n_strings};
use mccore::{guarded, Ctx, Family, Tier};

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, &'static str),
    Delete(usize, usize),
    Replace(usize, usize, &'static str),
}

impl Op {
    fn span(&self) -> (usize, usize) {
        match *self {
            Op::Insert(at, _) => (at, at),
            Op::Delete(s, e) | Op::Replace(s, e, _) => (s, e),
        }
    }
    fn text(&self) -> &'static str {
        match *self {
            Op::Insert(_, t) | Op::Replace(_, _, t) => t,
            Op::Delete(..) => "",
        }
    }
}

pub fn range(s: usize, e: usize) -> TextRange {
    TextRange::from_to(tu(s as u32), tu(e as u32))
}

fn all_ops(max: usize, texts: &[&'static str]) -> Vec<Op> {
    let mut v = Vec::new();
    for s in 0..=max {
        for t in texts {
            v.push(Op::Insert(s, t));
        }
        for e in s..=max {
            v.push(Op::Delete(s, e));
            for t in texts {
                v.push(Op::Replace(s, e, t));
            }
        }
    }
    v
}

/// The meaning of a list of changes: every position of the old text is kept
/// unless some change removes it; the changes are in order.
fn model(text: &[u8], ops: &[Op]) -> Option<Vec<u8>> {
    let mut res = Vec::new();
    let mut at = 0;
    for op in ops {
        let (s, e) = op.span();
        if s < at || e > text.len() {
            return None;
        }
        res.extend_from_slice(&text[at..s]);
        res.extend_from_slice(op.text().as_bytes());
        at = e;
    }
    res.extend_from_slice(&text[at..]);
    Some(res)
}

fn on_boundaries(text: &str, ops: &[Op]) -> bool {
    ops.iter().all(|o| {
        let (s, e) = o.span();
        text.is_char_boundary(s) && text.is_char_boundary(e)
    })
}

fn build(text: Text, ops: &[Op]) -> TextEdit {
    let mut b = TextEditBuilder::new(text);
    for op in ops {
        match *op {
            Op::Insert(at, t) => b.insert(tu(at as u32), t),
            Op::Delete(s, e) => b.delete(range(s, e)),
            Op::Replace(s, e, t) => b.replace(range(s, e), t),
        }
    }
    b.build()
}

/// All texts over the characters, up to a length in characters.
pub fn texts(chars: &[&str], n: u32) -> Vec<String> {
    let k = chars.len() as u64;
    (0..n_strings(k, n)).map(|i| nth_string(k, i).into_iter().map(|d| chars[d]).collect()).collect()
}

fn judge(holder: &str, from: usize, to: usize, ops: &[Op]) -> Result<u64, String> {
    let buf = TextBuf::from(holder);
    let text = buf.as_text().slice(range(from, to));
    let old = &holder[from..to];
    let got = guarded(|| Ok(build(text, ops))).and_then(|e| guarded(|| Ok(e.apply(text).to_string())));
    match (model(old.as_bytes(), ops), got) {
        (None, Err(_)) => Ok(1),
        (None, Ok(g)) => Err(format!("not rejected but gives {:?}", g)),
        (Some(want), Ok(g)) => {
            if want == g.as_bytes() {
                Ok(fnv(&want))
            } else {
                Err(format!("expected {:?}, got {:?}", String::from_utf8_lossy(&want), g))
            }
        }
        (Some(want), Err(e)) => {
            if on_boundaries(old, ops) {
                Err(format!("expected {:?}, got {}", String::from_utf8_lossy(&want), e))
            } else {
                Ok(2)
            }
        }
    }
}

fn walk(holder: &str, from: usize, to: usize, all: &[Op], ops: &mut Vec<Op>, depth: usize, ctx: &mut Ctx) {
    ctx.state();
    ctx.check(&|| format!("{:?}[{}..{}] {:?}", holder, from, to, ops), || judge(holder, from, to, ops));
    if ops.len() == depth || model(holder[from..to].as_bytes(), ops).is_none() {
        return;
    }
    for op in all {
        ops.push(op.clone());
        walk(holder, from, to, all, ops, depth, ctx);
        ops.pop();
    }
}

/// All sizes up to a bound, and those around powers of two.
pub fn sizes(all: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut p = 2;
    while p <= top {
        v.extend((p - 2..=p + 2).filter(|&n| n > all));
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // Sequences of builder operations.
    {
        let texts = texts(&["a", "b", "é"], 3);
        let depth = tier.pick(3, 4);
        let n_first = |t: &str| all_ops(t.len() + 1, &["X", "é"]).len();
        let cases: Vec<(usize, usize)> =
            texts.iter().enumerate().flat_map(|(i, t)| (0..n_first(t)).map(move |k| (i, k))).collect();
        res.push(Family::new(
            "builder",
            format!("{} texts; all sequences of up to {} insertions, deletions and replacements at all offsets up to one past the end, extended as long as they are valid", texts.len(), depth),
            cases.len() as u64,
            move |i, ctx| {
                let (t, k) = cases[i as usize];
                let text = &texts[t];
                let all = all_ops(text.len() + 1, &["X", "é"]);
                let mut ops = vec![all[k].clone()];
                if k == 0 {
                    ctx.state();
                    ctx.check(&|| format!("{:?} []", text), || judge(text, 0, text.len(), &[]));
                }
                walk(text, 0, text.len(), &all, &mut ops, depth, ctx);
            },
        ));
    }
    // Texts that are parts of longer ones, empty insertions.
    {
        let texts = texts(&["a", "b"], 3);
        let depth = tier.pick(2, 3);
        res.push(Family::new(
            "builder-on-slices",
            format!("{} texts inside of longer ones; all sequences of up to {} operations", texts.len(), depth),
            texts.len() as u64,
            move |i, ctx| {
                let text = &texts[i as usize];
                let holder = format!("é({})€", text);
                let all = all_ops(text.len() + 1, &["", "XY"]);
                walk(&holder, 3, 3 + text.len(), &all, &mut Vec::new(), depth, ctx);
            },
        ));
    }
    // Many changes in one edit.
    {
        let n = tier.pick(8, 9);
        res.push(Family::new(
            "many-changes",
            format!("all ways to keep, delete, replace or put something before each of {} characters", n),
            5u64.pow(n),
            move |i, ctx| {
                let text: String = "aébc€dfgh".chars().take(n as usize).collect();
                let mut ops = Vec::new();
                let mut k = i;
                for (at, c) in text.char_indices() {
                    let end = at + c.len_utf8();
                    match k % 5 {
                        0 => {}
                        1 => ops.push(Op::Delete(at, end)),
                        2 => ops.push(Op::Replace(at, end, "X")),
                        3 => ops.push(Op::Insert(at, "YZ")),
                        _ => {
                            ops.push(Op::Insert(at, "Y"));
                            ops.push(Op::Insert(at, "é"));
                            ops.push(Op::Delete(at, end));
                            ops.push(Op::Insert(end, "Z"));
                        }
                    }
                    k /= 5;
                }
                ctx.state();
                ctx.check(&|| format!("{:?} {:?}", text, ops), || {
                    let r = judge(&text, 0, text.len(), &ops)?;
                    // The same edit applied to a file.
                    let file = fall_test::sexp::language().parse(text.clone());
                    let edit = build(file.text(), &ops);
                    let new = file.edit(&edit);
                    let want = model(text.as_bytes(), &ops).unwrap();
                    if new.text().to_string().as_bytes() != &want[..] {
                        return Err(format!("the edited file has the text {:?}", new.text().to_string()));
                    }
                    Ok(r)
                });
            },
        ));
    }
    // Edit scripts, also ones that move or duplicate parts.
    {
        let texts = texts(&["a", "é"], 3);
        let depth = tier.pick(3, 4);
        res.push(Family::new(
            "scripts",
            format!("{} texts; all scripts of up to {} copies of ranges (also out of order, overlapping or outside of the text) and insertions", texts.len(), depth),
            texts.len() as u64,
            move |i, ctx| {
                let text = &texts[i as usize];
                let mut ops = vec![None];
                for s in 0..=text.len() + 1 {
                    for e in s..=text.len() + 1 {
                        ops.push(Some((s, e)));
                    }
                }
                let k = ops.len() as u64;
                for n in 0..n_strings(k, depth) {
                    let script: Vec<Option<(usize, usize)>> =
                        nth_string(k, n).into_iter().map(|d| ops[d]).collect();
                    ctx.state();
                    ctx.check(&|| format!("{:?} {:?}", text, script), || {
                        let edit = TextEdit {
                            ops: script
                                .iter()
                                .map(|o| match *o {
                                    None => TextEditOp::Insert("Xé".into()),
                                    Some((s, e)) => TextEditOp::Copy(range(s, e)),
                                })
                                .collect(),
                        };
                        let mut want = Some(String::new());
                        for o in &script {
                            let part = match *o {
                                None => Some("Xé"),
                                Some((s, e)) => text.get(s..e),
                            };
                            want = want.and_then(|w| part.map(|p| w + p));
                        }
                        let buf = TextBuf::from(text.as_str());
                        let got = guarded(|| Ok(edit.apply(buf.as_text()).to_string()));
                        match (want, got) {
                            (None, Err(_)) => Ok(1),
                            (Some(ref w), Ok(ref g)) if w == g => Ok(fnv(w.as_bytes())),
                            (w, g) => Err(format!("expected {:?}, got {:?}", w, g)),
                        }
                    });
                }
            },
        ));
    }
    // Long texts, long insertions, many changes.
    {
        let sizes = sizes(tier.pick(40, 140), tier.pick(4096, 65536));
        let k = sizes.len();
        let long: Vec<&'static str> = sizes.iter().map(|&n| &*Box::leak("xé".repeat(n / 3 + 1)[..].to_owned().into_boxed_str())).collect();
        res.push(Family::new(
            "long",
            format!("texts of each of {} sizes up to {}: changes of all kinds at both ends and in the middle with texts of each of these sizes; changes of 9 kinds of every character", k, sizes[k - 1]),
            (k * k + 9 * k) as u64,
            move |i, ctx| {
                let n = sizes[i as usize % k];
                let text: String = "aéb".chars().cycle().take(n).collect();
                let len = text.len();
                let mut scripts: Vec<Vec<Op>> = Vec::new();
                let which = i as usize / k;
                if which < k {
                    let t = long[which];
                    let mid = (0..=len / 2).rev().find(|&o| text.is_char_boundary(o)).unwrap();
                    for at in vec![0, mid, len] {
                        scripts.push(vec![Op::Insert(at, t)]);
                        scripts.push(vec![Op::Insert(at, t), Op::Insert(len, t)]);
                        for to in vec![mid, len] {
                            if at <= to {
                                scripts.push(vec![Op::Replace(at, to, t)]);
                                scripts.push(vec![Op::Delete(at, to), Op::Insert(len, t)]);
                            }
                        }
                    }
                } else if n <= 1100 {
                    let kind = which - k;
                    let mut ops = Vec::new();
                    for (j, (at, c)) in text.char_indices().enumerate() {
                        let end = at + c.len_utf8();
                        match (kind, j % 2, j % 3) {
                            (0, _, _) | (1, 0, _) | (2, _, 0) => ops.push(Op::Delete(at, end)),
                            (3, _, _) | (4, 0, _) | (5, _, 0) => ops.push(Op::Replace(at, end, "é")),
                            (6, _, _) | (7, 0, _) => ops.push(Op::Insert(at, "Y")),
                            (8, 0, _) => ops.push(Op::Delete(at, end)),
                            (8, _, _) => {
                                ops.push(Op::Insert(at, "€"));
                                ops.push(Op::Replace(at, end, ""));
                                ops.push(Op::Insert(end, "Z"));
                            }
                            _ => {}
                        }
                    }
                    scripts.push(ops);
                }
                for ops in scripts {
                    ctx.state();
                    ctx.check(&|| format!("{} characters, {:?}", n, ops.iter().map(|o| (o.span(), o.text().len())).take(8).collect::<Vec<_>>()), || judge(&text, 0, text.len(), &ops));
                }
            },
        ));
    }
    res
}
