//! Actions offered by the editors.

use std::collections::HashSet;
use std::sync::Arc;

use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextEdit, TextRange};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;
use mccore::util::{fnv, fnv_mix};
use mccore::{Ctx, Family, Tier};
use mcparse::hist::char_cuts;
use mcparse::tree::M;

use crate::texts::{self, Depth};

const ACTIONS: [&str; 6] = ["Swap", "Swap alternatives", "Extract rule", "Add braces", "Add impl", "No such action"];

const EXPRS: [&str; 6] = ["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"];

fn is_expr(m: &M, i: usize) -> bool {
    EXPRS.contains(&m.name(i))
}

/// Leaves that touch the cursor and pass the test; for a cursor between two,
/// the left one first.
fn at<'a>(m: &M, o: usize, test: impl Fn(usize) -> bool) -> Vec<usize> {
    m.leaves_at(0, o).into_iter().filter(|&l| test(l)).collect()
}

fn exchange(text: &str, l: (usize, usize), r: (usize, usize)) -> String {
    format!("{}{}{}{}{}", &text[..l.0], &text[r.0..r.1], &text[l.1..r.0], &text[l.0..l.1], &text[r.1..])
}

type Pair = ((usize, usize), (usize, usize));

/// The elements on both sides of a comma, if they can be exchanged.
fn around_comma(m: &M, comma: usize) -> Option<Pair> {
    let p = m.nodes[comma].parent?;
    let kids = &m.nodes[p].children;
    let at = kids.iter().position(|&k| k == comma)?;
    let l = kids[..at].iter().rev().cloned().find(|&k| !m.skipped(k))?;
    let r = kids[at + 1..].iter().cloned().find(|&k| !m.skipped(k))?;
    if m.nodes[l].ty == m.nodes[r].ty {
        Some((m.range(l), m.range(r)))
    } else {
        None
    }
}

/// The alternatives on both sides of a bar.
fn around_bar(m: &M, bar: usize) -> Option<Pair> {
    let p = m.nodes[bar].parent?;
    if m.name(p) != "BLOCK_EXPR" {
        return None;
    }
    let kids = &m.nodes[p].children;
    let at = kids.iter().position(|&k| k == bar)?;
    let l = kids[..at].iter().rev().cloned().find(|&k| is_expr(m, k))?;
    let r = kids[at + 1..].iter().cloned().find(|&k| is_expr(m, k))?;
    Some((m.range(l), m.range(r)))
}

fn words(s: &str) -> Vec<&str> {
    s.split_whitespace().collect()
}

/// What may be inserted, ignoring layout.
fn same_words(a: &str, b: &str) -> bool {
    words(a) == words(b)
}

/// If `new` is `old` with something inserted at `at`, that.
fn inserted<'a>(old: &str, new: &'a str, at: usize) -> Option<&'a str> {
    if new.len() < old.len() || !new.starts_with(&old[..at]) || !new.ends_with(&old[at..]) {
        return None;
    }
    Some(&new[at..new.len() - (old.len() - at)])
}

fn use_decl_at(m: &M, leaf: usize) -> Option<(usize, usize)> {
    let d = m.enclosing(leaf, "USE_DECL")?;
    if m.kid(d, "USE_SPEC").is_some() || m.kid(d, "ALIAS").is_some() {
        return None;
    }
    let seg = m.kid(m.kid(d, "PATH")?, "PATH_SEGMENT")?;
    Some(m.range(seg))
}

fn impl_at(m: &M, leaf: usize) -> Vec<(usize, String)> {
    let mut res = Vec::new();
    for &ty in &["STRUCT_DEF", "ENUM_DEF"] {
        let d = match m.enclosing(leaf, ty) {
            Some(d) => d,
            None => continue,
        };
        let name = match m.kid(d, "IDENT") {
            Some(n) => m.text_of(n),
            None => continue,
        };
        let mut s = String::from("impl");
        let mut args = String::new();
        if let Some(ps) = m.kid(d, "TYPE_PARAMETERS") {
            s += m.text_of(ps);
            let mut v = Vec::new();
            for l in m.kids(ps, "LIFETIME_PARAMETER") {
                v.push(m.kid(l, "LIFETIME").map_or("", |l| m.text_of(l)));
            }
            for t in m.kids(ps, "TYPE_PARAMETER") {
                v.push(m.kid(t, "IDENT").map_or("", |l| m.text_of(l)));
            }
            args = format!("<{}>", v.join(", "));
        }
        s += &format!(" {}{} {{ }}", name, args);
        res.push((m.nodes[d].end, s));
    }
    res
}

/// Expressions and runs of parts of a sequence, as ranges.
fn extractable(m: &M) -> Vec<(usize, (usize, usize))> {
    let mut res = Vec::new();
    for i in m.all() {
        let rule = match m.enclosing(i, "SYN_RULE") {
            Some(r) => r,
            None => continue,
        };
        // A rule without body is not a rule.
        if is_expr(m, i) && m.nodes[i].parent != Some(rule) {
            res.push((rule, m.range(i)));
        }
        if m.name(i) == "SEQ_EXPR" {
            let parts: Vec<usize> = m.nodes[i].children.iter().cloned().filter(|&k| is_expr(m, k)).collect();
            for a in 0..parts.len() {
                for b in a + 1..parts.len() {
                    res.push((rule, (m.nodes[parts[a]].start, m.nodes[parts[b]].end)));
                }
            }
        }
    }
    res
}

fn is_reference(m: &M, r: (usize, usize)) -> bool {
    m.all().any(|i| m.name(i) == "REF_EXPR" && m.range(i) == r)
}

fn visible<'a, 'f>(m: &'a M<'f>) -> Vec<&'a str> {
    m.all().filter(|&i| m.is_leaf(i) && m.name(i) != "WHITESPACE" && !m.name(i).contains("COMMENT")).map(|i| m.text_of(i)).collect()
}

/// The kinds of nodes of this extent.
fn kind(m: &M, r: (usize, usize)) -> Vec<String> {
    m.all().filter(|&i| m.range(i) == r).map(|i| m.name(i).to_string()).collect()
}

fn swapped<E: EditorFileImpl>(
    m: &M,
    action: &str,
    leaves: &[usize],
    around: &dyn Fn(&M, usize) -> Option<Pair>,
    new: Option<&str>,
) -> Result<(), String> {
    let pairs: Vec<(usize, Pair)> = leaves.iter().filter_map(|&c| around(m, c).map(|p| (c, p))).collect();
    let new = match new {
        None => {
            return if leaves.first().map_or(true, |&c| around(m, c).is_none()) {
                Ok(())
            } else {
                Err("not offered".to_owned())
            }
        }
        Some(n) => n,
    };
    let &(sep, (l, r)) = match pairs.iter().find(|(_, (l, r))| exchange(&m.text, *l, *r) == new) {
        Some(p) => p,
        None => return Err(format!("gave {:?}", new)),
    };
    // Back again.
    let file2 = E::parse(new);
    let m2 = M::new(file2.file());
    let o2 = m.nodes[sep].start + (r.1 - r.0) - (l.1 - l.0);
    let l2 = (l.0, l.0 + (r.1 - r.0));
    let r2 = (r.1 - (l.1 - l.0), r.1);
    let back = m2
        .all()
        .find(|&i| m2.is_leaf(i) && m2.nodes[i].start == o2 && m2.nodes[i].ty == m.nodes[sep].ty)
        .and_then(|i| around(&m2, i));
    // A lone quote swallows what it comes to stand before.
    let proper = !m.has_errors() && !m.all().any(|i| m.is_leaf(i) && m.text_of(i) == "'");
    let empty = l.0 == l.1 || r.0 == r.1;
    if empty && proper {
        // Where an empty alternative is, between spaces and comments, is arbitrary.
        let edit = file2.apply_context_action(TextRange::from_len(tu(o2 as u32 + 1), tu(0)), action);
        match edit.map(|e| e.apply(file2.file().text()).to_string()) {
            Some(ref t) if visible(&M::new(E::parse(t).file())) == visible(m) => {}
            x => return Err(format!("gave {:?}, but swapping that again gave {:?}", new, x)),
        }
    } else if back == Some((l2, r2)) {
        // From the separator's right end, where it is preferred to what follows.
        let edit = file2.apply_context_action(TextRange::from_len(tu(o2 as u32 + 1), tu(0)), action);
        match edit.map(|e| e.apply(file2.file().text()).to_string()) {
            Some(ref t) if *t == m.text => {}
            x => return Err(format!("gave {:?}, but swapping that again gave {:?}", new, x)),
        }
    } else if proper && kind(&m2, l2) == kind(m, r) && kind(&m2, r2) == kind(m, l) {
        return Err(format!("gave {:?}, where the elements cannot be swapped back", new));
    }
    if proper && m2.has_errors() {
        return Err(format!("gave {:?}, which has errors", new));
    }
    Ok(())
}

fn expect_one_of(m: &M, wanted: &[String], must: bool, new: Option<&str>) -> Result<(), String> {
    let _ = m;
    match new {
        None if must && !wanted.is_empty() => Err("not offered".to_owned()),
        None => Ok(()),
        Some(n) if wanted.iter().any(|w| w == n) => Ok(()),
        Some(n) => Err(format!("gave {:?}, expected one of {:?}", n, wanted)),
    }
}

/// Whether texts have errors, found out once for each.
type Errors = std::cell::RefCell<std::collections::HashMap<String, bool>>;

fn has_errors<E: EditorFileImpl>(known: &Errors, text: &str) -> bool {
    if let Some(&e) = known.borrow().get(text) {
        return e;
    }
    let e = M::new(E::parse(text).file()).has_errors();
    known.borrow_mut().insert(text.to_owned(), e);
    e
}

fn judge_action<E: EditorFileImpl>(lang: &str, m: &M, action: &str, a: usize, b: usize, new: Option<&str>, known: &Errors) -> Result<(), String> {
    match (lang, action) {
        (_, "Swap") => swapped::<E>(m, action, &at(m, a, |l| m.text_of(l) == ","), &around_comma, new),
        ("fall", "Swap alternatives") => swapped::<E>(m, action, &at(m, a, |l| m.name(l) == "PIPE"), &around_bar, new),
        ("rust", "Add braces") => {
            let leaves = at(m, a, |_| true);
            let found: Vec<_> = leaves.iter().filter_map(|&l| use_decl_at(m, l)).collect();
            let wanted: Vec<String> = found
                .iter()
                .map(|&(s, e)| format!("{}{{{}}}{}", &m.text[..s], &m.text[s..e], &m.text[e..]))
                .collect();
            expect_one_of(m, &wanted, found.len() == leaves.len(), new)?;
            if let Some(new) = new {
                // `super` is a path, but cannot be listed.
                let listed = found.iter().all(|&(s, e)| &m.text[s..e] != "super");
                if !m.has_errors() && listed && has_errors::<E>(known, new) {
                    return Err(format!("gave {:?}, which has errors", new));
                }
            }
            Ok(())
        }
        ("rust", "Add impl") => {
            let leaves = at(m, a, |_| true);
            let found: Vec<_> = leaves.iter().map(|&l| impl_at(m, l)).collect();
            let new = match new {
                None if !found.is_empty() && found.iter().all(|f| !f.is_empty()) => return Err("not offered".to_owned()),
                None => return Ok(()),
                Some(n) => n,
            };
            let ok = found.iter().flat_map(|f| f.iter()).any(|(end, s)| match inserted(&m.text, new, *end) {
                Some(i) => i.starts_with(char::is_whitespace) && same_words(i, s),
                None => false,
            });
            if !ok {
                return Err(format!("gave {:?}, expected one of {:?}", new, found));
            }
            if !m.has_errors() && has_errors::<E>(known, new) {
                return Err(format!("gave {:?}, which has errors", new));
            }
            Ok(())
        }
        ("fall", "Extract rule") => {
            let leaves: Vec<usize> = m
                .all()
                .filter(|&i| m.is_leaf(i) && !m.skipped(i) && m.nodes[i].start < b && a < m.nodes[i].end)
                .collect();
            let (mut s, mut e) = (a, b);
            // Whether the selection starts and ends in tokens.
            let mut tight = !leaves.is_empty();
            if let (Some(&f), Some(&l)) = (leaves.first(), leaves.last()) {
                tight = m.nodes[f].start <= a && b <= m.nodes[l].end;
                s = m.nodes[f].start;
                e = m.nodes[l].end;
            }
            let all: Vec<_> = extractable(m)
                .into_iter()
                .filter(|&(_, (x, y))| leaves.is_empty() || x <= s && e <= y)
                .collect();
            let least = all.iter().cloned().min_by_key(|&(_, (x, y))| y - x);
            let new = match new {
                None => {
                    return match least {
                        Some((_, r)) if a < b && tight && !is_reference(m, r) => Err("not offered".to_owned()),
                        _ => Ok(()),
                    }
                }
                Some(n) => n,
            };
            if a == b {
                return Err("offered for an empty selection".to_owned());
            }
            let ok = all.iter().any(|&(rule, (x, y))| {
                if tight && Some((x, y)) != least.map(|l| l.1) {
                    return false;
                }
                let old = format!("{}new_rule{}", &m.text[..x], &m.text[y..]);
                let end = m.nodes[rule].end + 8 - (y - x);
                match inserted(&old, new, end) {
                    Some(i) => {
                        let body = &m.text[x..y];
                        i.starts_with(char::is_whitespace)
                            && i.contains(body)
                            && same_words(i, &format!("rule new_rule {{ {} }}", body))
                    }
                    None => false,
                }
            });
            if !ok {
                return Err(format!("gave {:?}, for {:?}", new, least));
            }
            if !m.has_errors() && has_errors::<E>(known, new) {
                return Err(format!("gave {:?}, which has errors", new));
            }
            Ok(())
        }
        _ => match new {
            None => Ok(()),
            Some(n) => Err(format!("gave {:?}", n)),
        },
    }
}

fn result<E: EditorFileImpl>(file: &E, edit: &TextEdit, check_edit: bool, edited: &mut HashSet<String>) -> Result<String, String> {
    let new = edit.apply(file.file().text()).to_string();
    // Edits that give the same text are, but for their chunks, the same.
    if check_edit && edited.insert(new.clone()) {
        let t = file.edit(edit).file().text().to_string();
        if t != new {
            return Err(format!("the edited file has the text {:?}, not {:?}", t, new));
        }
    }
    Ok(new)
}

/// The selections that start somewhere.
#[derive(Clone, Copy)]
enum Ends {
    All,
    /// The empty one, that of one character, and the rest of the text.
    Few,
    Cursor,
}

fn judge<E: EditorFileImpl>(lang: &str, text: &str, ends: Ends) -> Result<u64, String> {
    let file = E::parse(text);
    let m = M::new(file.file());
    let cuts = char_cuts(text);
    let mut h = 1;
    let mut seen = Vec::new();
    let mut edited = HashSet::new();
    let known = Errors::default();
    for (i, &a) in cuts.iter().enumerate() {
        let ends: Vec<usize> = match ends {
            Ends::All => cuts[i..].to_vec(),
            Ends::Few => {
                let mut es = cuts[i..cuts.len().min(i + 2)].to_vec();
                es.extend(cuts[i..].last());
                es.dedup();
                es
            }
            Ends::Cursor => vec![a],
        };
        for b in ends {
            let range = TextRange::from_to(tu(a as u32), tu(b as u32));
            let offered = file.context_actions(range);
            for &id in &ACTIONS {
                let context = |e: String| format!("{:?} at {}..{}: {}", id, a, b, e);
                let edit = file.apply_context_action(range, id);
                if edit.is_some() != offered.contains(&id) {
                    return Err(context(format!("offered: {}, an edit: {}", offered.contains(&id), edit.is_some())));
                }
                let new = match edit {
                    Some(e) => Some(result(&file, &e, a == b, &mut edited).map_err(context)?),
                    None => None,
                };
                if let Some(n) = &new {
                    h = fnv_mix(h, fnv(n.as_bytes()));
                }
                // Only the start of the selection matters to most actions.
                let key = (id, a, if id == "Extract rule" { b } else { 0 }, new.clone());
                if seen.contains(&key) {
                    continue;
                }
                seen.push(key);
                judge_action::<E>(lang, &m, id, a, b, new.as_ref().map(|s| s.as_str()), &known).map_err(context)?;
            }
            for id in offered {
                if !ACTIONS.contains(&id) {
                    return Err(format!("unknown action {:?}", id));
                }
            }
        }
        seen.clear();
    }
    Ok(h)
}

/// All selections in texts of up to `all` bytes, few of each start in those of up to `few`.
fn each(all: usize, few: usize) -> texts::Each {
    Arc::new(move |s, text, ctx: &mut Ctx| {
        ctx.state();
        let n = char_cuts(text).len() as u64;
        let (ends, count) = match text.len() {
            l if l <= all => (Ends::All, n * (n + 1) / 2),
            l if l <= few => (Ends::Few, (3 * n).saturating_sub(3).max(1)),
            _ => (Ends::Cursor, n),
        };
        ctx.count("selections", count);
        ctx.check(&|| format!("{}: {:?}", s.name, text), || {
            if s.name == "rust" {
                judge::<RustEditorFile>(s.name, text, ends)
            } else {
                judge::<FileWithAnalysis>(s.name, text, ends)
            }
        });
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    let rust = texts::shipped("rust");
    let extra: Vec<String> = [
        "use a::b::c; use x; use ::y; use a as b; use a::*; use a::{b, c}; use self::q; use super; use super::z;",
        "struct S; struct T<'a, 'b: 'a, X, Y: Z<X>>(u8, X); enum E<K> { A, B(u8), C { x: u8 } } enum F {}",
        "struct A<> {} // c\nstruct /*x*/ B where u8: C { a: u8, b: u16, } fn f<A, B>(x: u8, y: u8) { struct S<T>; }",
        "fn f() { g(1, h(2, 3), x); [a, b, (c, d)]; let (p, q) = v![x y, z; w]; S { a: 1, b: 2, ..s } }",
        "type X = F<'a, T, U = V>; impl<A, B> X for (A, B) { } #[a(b, c = \"d\")] mod m { use p::q; }",
        "struct é<ß>; fn f(a: &'é u8,/* c */b: ü) {} use é::ö;",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    res.extend(texts::families(
        &rust,
        &extra,
        Depth { short: tier.pick(1, 2), long: tier.pick(2, 3), sample: tier.pick(200, 300), all_pieces: tier.pick(false, true) },
        each(tier.pick(24, 32), tier.pick(48, 100)),
    ));
    res.push(texts::stretched(&rust, tier.pick(20, 40), tier.pick(64, 128), each(tier.pick(40, 60), tier.pick(150, 300))));
    let fall = texts::shipped("fall");
    let extra: Vec<String> = [
        "rule a { b | c d | 'e' | {f | g}* | <h i {j | k}>? | } rule b(x, y) { x y | }",
        "pub rule a { b c // d\n | e f? }\n\n#[x, y(1), z] rule b { <m a b, c> }\nrule c { | a || b | }",
        "ast { node a: b, c, d { x y? } class z { p q } }",
        "rule a { é 'ü' | <ö r> ß* }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    res.extend(texts::families(
        &fall,
        &extra,
        Depth { short: 2, long: 3, sample: tier.pick(84, 160), all_pieces: tier.pick(false, true) },
        each(usize::max_value(), 0),
    ));
    res.push(texts::stretched(&fall, tier.pick(20, 40), tier.pick(64, 128), each(tier.pick(80, 120), tier.pick(200, 400))));
    res
}
