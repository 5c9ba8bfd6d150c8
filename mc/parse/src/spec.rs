//! Reference semantics of grammars, written as pure functions.
//!
//! Every piece of scoped state (contexts, arguments, pending replacement,
//! previously finished node) is threaded through results, so that a failed
//! attempt cannot leave anything behind by construction.

use std::rc::Rc;

use fall_parse::{Expr, ExprRef, PrattTable};
use fall_tree::{File, Node, NodeType};

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Node(u32, Vec<Tree>),
    /// type, offset, length in bytes
    Leaf(u32, u32, u32),
}

/// The grammar is outside of the domain: left recursion, a repetition of
/// something empty, a reference to an unbound parameter, ...
#[derive(Debug)]
pub struct Ill(pub &'static str);

#[derive(Clone)]
struct Closure {
    expr: ExprRef,
    env: Env,
}
type Env = Option<Rc<Frame>>;
struct Frame {
    arg: u32,
    val: Closure,
    next: Env,
}

#[derive(Clone, Copy, PartialEq)]
struct St {
    prev: Option<u32>,
    replacement: Option<u32>,
}

type Res = Result<Option<(Vec<Tree>, usize, St)>, Ill>;

pub struct Spec<'a> {
    rules: &'a [Expr],
    types: &'a [NodeType],
    text: &'a str,
    /// significant tokens: type, start, length
    tokens: &'a [(u32, u32, u32)],
    depth: u32,
    steps: u32,
    max_steps: u32,
}

pub const ERROR: u32 = 0;

/// The tree of `text` without whitespace. `tokens` are the significant ones.
pub fn parse(rules: &[Expr], types: &[NodeType], text: &str, tokens: &[(u32, u32, u32)]) -> Result<Tree, Ill> {
    parse_bounded(rules, types, text, tokens, 20_000)
}

pub fn parse_bounded(
    rules: &[Expr], types: &[NodeType], text: &str, tokens: &[(u32, u32, u32)], max_steps: u32,
) -> Result<Tree, Ill> {
    let mut s = Spec { rules, types, text, tokens, depth: 0, steps: 0, max_steps };
    let st = St { prev: None, replacement: None };
    let file = match rules[0] {
        Expr::Pub { ty, .. } => s.ty(ty.0),
        _ => return Err(Ill("the first rule is not public")),
    };
    let r = s.go(ExprRef(0), 0, tokens.len(), 0, &None, st)?;
    let (ty, mut children, rest) = match r {
        Some((mut trees, rest, _)) => match trees.pop() {
            Some(Tree::Node(ty, children)) => (ty, children, rest),
            _ => unreachable!(),
        },
        None => (file, Vec::new(), 0),
    };
    if rest < tokens.len() {
        children.push(s.error(rest, tokens.len()));
    }
    Ok(Tree::Node(ty, children))
}

impl<'a> Spec<'a> {
    fn ty(&self, i: u32) -> u32 {
        self.types[i as usize].0
    }

    fn leaf(&self, i: usize) -> Tree {
        let (ty, start, len) = self.tokens[i];
        Tree::Leaf(ty, start, len)
    }

    fn error(&self, from: usize, to: usize) -> Tree {
        Tree::Node(ERROR, (from..to).map(|i| self.leaf(i)).collect())
    }

    fn go(&mut self, e: ExprRef, pos: usize, limit: usize, ctx: u32, env: &Env, st: St) -> Res {
        self.depth += 1;
        self.steps += 1;
        if self.depth > self.max_steps / 50 {
            return Err(Ill("unbounded recursion"));
        }
        if self.steps > self.max_steps {
            return Err(Ill("too many steps"));
        }
        let rules = self.rules;
        let r = self.step(&rules[e.0 as usize], pos, limit, ctx, env, st);
        self.depth -= 1;
        r
    }

    fn step(&mut self, e: &'a Expr, pos: usize, limit: usize, ctx: u32, env: &Env, st: St) -> Res {
        match *e {
            Expr::Pub { ty, body, replaceable } => {
                let ty = self.ty(ty.0);
                let inner = if replaceable { St { replacement: None, ..st } } else { st };
                match self.go(body, pos, limit, ctx, env, inner)? {
                    None => Ok(None),
                    Some((trees, end, out)) => {
                        if replaceable {
                            let actual = out.replacement.unwrap_or(ty);
                            let st = St { prev: Some(ty), replacement: st.replacement };
                            Ok(Some((vec![Tree::Node(actual, trees)], end, st)))
                        } else {
                            let st = St { prev: Some(ty), ..out };
                            Ok(Some((vec![Tree::Node(ty, trees)], end, st)))
                        }
                    }
                }
            }
            Expr::PubReplace { ty, body } => {
                let ty = self.ty(ty.0);
                match self.go(body, pos, limit, ctx, env, st)? {
                    None => Ok(None),
                    Some((trees, end, out)) => Ok(Some((trees, end, St { replacement: Some(ty), ..out }))),
                }
            }
            Expr::Or(ref parts) => self.choice(parts, pos, limit, ctx, env, st),
            Expr::And(ref parts, commit) => {
                let mut trees = Vec::new();
                let mut at = pos;
                let mut cur = st;
                for (i, part) in parts.iter().enumerate() {
                    match self.go(*part, at, limit, ctx, env, cur)? {
                        Some((ts, end, out)) => {
                            trees.extend(ts);
                            at = end;
                            cur = out;
                        }
                        None => {
                            return match commit {
                                Some(c) if i >= c => {
                                    trees.push(Tree::Node(ERROR, Vec::new()));
                                    Ok(Some((trees, at, cur)))
                                }
                                _ => Ok(None),
                            };
                        }
                    }
                }
                Ok(Some((trees, at, cur)))
            }
            Expr::Token(ty) => {
                if pos < limit && self.tokens[pos].0 == self.ty(ty.0) {
                    Ok(Some((vec![self.leaf(pos)], pos + 1, st)))
                } else {
                    Ok(None)
                }
            }
            Expr::ContextualToken(ty, ref text) => {
                // Adjacent tokens that spell the text together.
                let mut end = pos;
                let mut len = 0;
                while len < text.len() {
                    if end >= limit {
                        return Ok(None);
                    }
                    let (_, start, l) = self.tokens[end];
                    if end > pos {
                        let (_, ps, pl) = self.tokens[end - 1];
                        if ps + pl != start {
                            return Ok(None);
                        }
                    }
                    len += l as usize;
                    end += 1;
                }
                if pos == end {
                    return Err(Ill("empty contextual token"));
                }
                let start = self.tokens[pos].1;
                if len != text.len() || &self.text[start as usize..start as usize + len] != text.as_str() {
                    return Ok(None);
                }
                Ok(Some((vec![Tree::Leaf(self.ty(ty.0), start, len as u32)], end, st)))
            }
            Expr::Rep(body) => {
                let mut trees = Vec::new();
                let mut at = pos;
                let mut cur = st;
                while let Some((ts, end, out)) = self.go(body, at, limit, ctx, env, cur)? {
                    if end == at {
                        return Err(Ill("repetition of an empty match"));
                    }
                    trees.extend(ts);
                    at = end;
                    cur = out;
                }
                Ok(Some((trees, at, cur)))
            }
            Expr::WithSkip(first, body) => {
                let mut at = pos;
                loop {
                    if self.go(first, at, limit, ctx, env, st)?.is_some() {
                        if let Some((ts, end, out)) = self.go(body, at, limit, ctx, env, st)? {
                            let mut trees = Vec::new();
                            if at > pos {
                                trees.push(self.error(pos, at));
                            }
                            trees.extend(ts);
                            return Ok(Some((trees, end, out)));
                        }
                    }
                    if at == limit {
                        return Ok(None);
                    }
                    at += 1;
                }
            }
            Expr::Opt(body) => Ok(Some(self.go(body, pos, limit, ctx, env, st)?.unwrap_or((Vec::new(), pos, st)))),
            Expr::Not(body) => match self.go(body, pos, limit, ctx, env, st)? {
                Some(_) => Ok(None),
                None => Ok(Some((Vec::new(), pos, st))),
            },
            Expr::Eof => Ok(if pos == limit { Some((Vec::new(), pos, st)) } else { None }),
            Expr::Any => Ok(if pos < limit { Some((vec![self.leaf(pos)], pos + 1, st)) } else { None }),
            Expr::Layer(cover, contents) => {
                let end = match self.go(cover, pos, limit, ctx, env, st)? {
                    None => return Ok(None),
                    Some((_, end, _)) => end,
                };
                let (mut trees, rest, out) =
                    self.go(contents, pos, end, ctx, env, st)?.unwrap_or((Vec::new(), pos, st));
                if rest < end {
                    trees.push(self.error(rest, end));
                }
                Ok(Some((trees, end, out)))
            }
            Expr::Pratt(ref table) => self.pratt(table, 0, pos, limit, ctx, env, st),
            Expr::Enter(c, e) => self.go(e, pos, limit, ctx | 1 << c.0, env, st),
            Expr::Exit(c, e) => self.go(e, pos, limit, ctx & !(1 << c.0), env, st),
            Expr::IsIn(c) => Ok(if ctx & 1 << c.0 != 0 { Some((Vec::new(), pos, st)) } else { None }),
            Expr::Call(body, ref args) => {
                let mut frame: Env = None;
                for &(arg, expr) in args {
                    let val = match self.rules[expr.0 as usize] {
                        Expr::Var(i) => lookup(env, i.0)?,
                        _ => Closure { expr, env: env.clone() },
                    };
                    frame = Some(Rc::new(Frame { arg: arg.0, val, next: frame }));
                }
                self.go(body, pos, limit, ctx, &frame, st)
            }
            Expr::Var(i) => {
                let c = lookup(env, i.0)?;
                self.go(c.expr, pos, limit, ctx, &c.env, st)
            }
            Expr::PrevIs(ref tys) => {
                let ok = st.prev.map_or(false, |p| tys.iter().any(|t| self.ty(t.0) == p));
                Ok(if ok { Some((Vec::new(), pos, st)) } else { None })
            }
            Expr::Inject(prefix, body) => {
                let (mut trees, mid, out) = match self.go(prefix, pos, limit, ctx, env, st)? {
                    None => return Ok(None),
                    Some(x) => x,
                };
                let (body_trees, end, out) = match self.go(body, mid, limit, ctx, env, out)? {
                    None => return Ok(None),
                    Some(x) => x,
                };
                if mid == pos {
                    trees.extend(body_trees);
                    return Ok(Some((trees, end, out)));
                }
                let mut body_trees = body_trees.into_iter();
                match (trees.first(), body_trees.next()) {
                    (Some(Tree::Node(..)), Some(Tree::Node(ty, children))) => {
                        trees.extend(children);
                        let mut res = vec![Tree::Node(ty, trees)];
                        res.extend(body_trees);
                        Ok(Some((res, end, out)))
                    }
                    _ => Err(Ill("injection without nodes")),
                }
            }
            Expr::Cached(body) => self.go(body, pos, limit, ctx, env, st),
        }
    }

    fn choice(&mut self, parts: &[ExprRef], pos: usize, limit: usize, ctx: u32, env: &Env, st: St) -> Res {
        for &part in parts {
            let r = self.go(part, pos, limit, ctx, env, st)?;
            if r.is_some() {
                return Ok(r);
            }
        }
        Ok(None)
    }

    fn pratt(
        &mut self, t: &'a PrattTable, min: u32, pos: usize, limit: usize, ctx: u32, env: &Env, st: St,
    ) -> Res {
        self.depth += 1;
        if self.depth > self.max_steps / 50 {
            return Err(Ill("unbounded recursion"));
        }
        let mut lhs = self.choice(&t.atoms, pos, limit, ctx, env, st)?;
        if let Some((ref ts, _, _)) = lhs {
            match ts.first() {
                Some(Tree::Node(..)) => (),
                _ => return Err(Ill("an operand that is not a node")),
            }
        } else {
            for p in &t.prefixes {
                if let Some((mut trees, at, out)) = self.go(p.op, pos, limit, ctx, env, st)? {
                    if let Some((operand, end, out)) = self.pratt(t, p.priority, at, limit, ctx, env, out)? {
                        let ty = self.ty(p.ty.0);
                        trees.extend(operand);
                        lhs = Some((vec![Tree::Node(ty, trees)], end, St { prev: Some(ty), ..out }));
                        break;
                    }
                }
            }
        }
        let (mut trees, mut at, mut cur) = match lhs {
            None => {
                self.depth -= 1;
                return Ok(None);
            }
            Some(x) => x,
        };
        'outer: loop {
            for ix in t.infixes.iter().filter(|ix| ix.priority >= min) {
                if let Some((op, mid, out)) = self.go(ix.op, at, limit, ctx, env, cur)? {
                    if mid == at && !ix.has_rhs {
                        return Err(Ill("empty operator"));
                    }
                    let ty = self.ty(ix.ty.0);
                    let before = at;
                    trees.extend(op);
                    at = mid;
                    cur = out;
                    if ix.has_rhs {
                        match self.pratt(t, ix.priority + 1, at, limit, ctx, env, cur)? {
                            Some((rhs, end, out)) => {
                                trees.extend(rhs);
                                at = end;
                                cur = out;
                            }
                            None => trees.push(Tree::Node(ERROR, Vec::new())),
                        }
                    }
                    if at == before {
                        return Err(Ill("empty operator"));
                    }
                    trees = vec![Tree::Node(ty, trees)];
                    cur.prev = Some(ty);
                    continue 'outer;
                }
            }
            break;
        }
        self.depth -= 1;
        Ok(Some((trees, at, cur)))
    }
}

fn lookup(env: &Env, i: u32) -> Result<Closure, Ill> {
    let mut e = env.as_ref();
    while let Some(f) = e {
        if f.arg == i {
            return Ok(f.val.clone());
        }
        e = f.next.as_ref();
    }
    Err(Ill("unbound parameter"))
}

// --- flat form --------------------------------------------------------------

const OPEN: u64 = 1 << 62;
const CLOSE: u64 = 2 << 62;

pub fn flatten(t: &Tree, out: &mut Vec<u64>) {
    match t {
        Tree::Node(ty, children) => {
            out.push(OPEN | u64::from(*ty));
            for c in children {
                flatten(c, out);
            }
            out.push(CLOSE);
        }
        Tree::Leaf(ty, start, len) => out.push(leaf_code(*ty, *start, *len)),
    }
}

fn leaf_code(ty: u32, start: u32, len: u32) -> u64 {
    u64::from(start) << 40 | u64::from(len) << 20 | u64::from(ty)
}

/// The tree of a file in flat form; `keep` selects the leaves.
pub fn flatten_file(file: &File, keep: &dyn Fn(u32) -> bool) -> Vec<u64> {
    let mut out = Vec::new();
    flatten_node(file.root(), keep, &mut out);
    out
}

pub fn is_leaf(n: Node) -> bool {
    !n.range().is_empty() && n.children().next().is_none()
}

fn flatten_node(n: Node, keep: &dyn Fn(u32) -> bool, out: &mut Vec<u64>) {
    if is_leaf(n) {
        if keep(n.ty().0) {
            let r = n.range();
            out.push(leaf_code(n.ty().0, r.start().utf8_len() as u32, r.len().utf8_len() as u32));
        }
        return;
    }
    out.push(OPEN | u64::from(n.ty().0));
    for c in n.children() {
        flatten_node(c, keep, out);
    }
    out.push(CLOSE);
}

pub fn show_flat(v: &[u64], name: &dyn Fn(u32) -> String) -> String {
    let mut s = String::new();
    for &x in v {
        if x & OPEN != 0 {
            s += &format!("{}[ ", name((x & !OPEN) as u32));
        } else if x & CLOSE != 0 {
            s += "] ";
        } else {
            s += &format!("{}@{}+{} ", name((x & 0xfffff) as u32), x >> 40, x >> 20 & 0xfffff);
        }
    }
    s
}

// --- whitespace placement -----------------------------------------------------

/// Places whitespace. `raw` are all tokens, `sig` tells which are significant;
/// `binder(ty, run, leading)` says how many tokens of a run belong to a node,
/// a run being a range of raw token indexes.
pub fn place_whitespace(
    tree: &Tree, raw: &[(u32, u32, u32)], is_ws: &dyn Fn(u32) -> bool,
    binder: &dyn Fn(u32, &[(u32, u32, u32)], bool) -> usize,
) -> Vec<u64> {
    let mut out = Vec::new();
    let mut at = 0;
    let (ty, children) = match tree {
        Tree::Node(ty, children) => (*ty, children),
        _ => unreachable!(),
    };
    out.push(OPEN | u64::from(ty));
    for c in children {
        place(c, raw, is_ws, binder, &mut at, &mut out);
    }
    // Everything that remains belongs to the file.
    for &(t, s, l) in &raw[at..] {
        out.push(leaf_code(t, s, l));
    }
    out.push(CLOSE);
    out
}

fn run_at(raw: &[(u32, u32, u32)], at: usize, is_ws: &dyn Fn(u32) -> bool) -> usize {
    raw[at..].iter().take_while(|t| is_ws(t.0)).count()
}

fn place(
    tree: &Tree, raw: &[(u32, u32, u32)], is_ws: &dyn Fn(u32) -> bool,
    binder: &dyn Fn(u32, &[(u32, u32, u32)], bool) -> usize, at: &mut usize, out: &mut Vec<u64>,
) {
    match tree {
        Tree::Leaf(ty, start, len) => {
            while is_ws(raw[*at].0) {
                out.push(leaf_code(raw[*at].0, raw[*at].1, raw[*at].2));
                *at += 1;
            }
            assert_eq!(raw[*at].1, *start);
            out.push(leaf_code(*ty, *start, *len));
            while *at < raw.len() && raw[*at].1 < start + len {
                *at += 1;
            }
        }
        Tree::Node(ty, children) => {
            let n = run_at(raw, *at, is_ws);
            let inside = binder(*ty, &raw[*at..*at + n], true);
            for _ in 0..n - inside {
                out.push(leaf_code(raw[*at].0, raw[*at].1, raw[*at].2));
                *at += 1;
            }
            out.push(OPEN | u64::from(*ty));
            for c in children {
                place(c, raw, is_ws, binder, at, out);
            }
            let n = run_at(raw, *at, is_ws);
            let inside = binder(*ty, &raw[*at..*at + n], false);
            for _ in 0..inside {
                out.push(leaf_code(raw[*at].0, raw[*at].1, raw[*at].2));
                *at += 1;
            }
            out.push(CLOSE);
        }
    }
}
