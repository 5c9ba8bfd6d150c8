//! What a grammar file means, read off its plain tree: the reference for the
//! generator.

use fall_parse::{Arg, Context, Expr, ExprRef, Infix, NodeTypeRef, PrattTable, Prefix};
use mceditor::names::{Call, Names, Target};
use mcparse::tree::M;
use regex::Regex;

/// How many contexts and parameters are supported.
const LIMIT: usize = 16;

pub enum Verdict {
    Valid(Model),
    /// There is no parser: the generator has to say so.
    Invalid(String),
    /// Not specified.
    Open(&'static str),
}

pub struct Model {
    /// Names of node types, `ERROR` first, and whether the parser skips them.
    pub types: Vec<(String, bool)>,
    pub lex: Vec<Lex>,
    pub exprs: Vec<Expr>,
    pub binder: bool,
    pub views: Views,
}

pub struct Lex {
    pub ty: u32,
    pub pat: Pat,
    pub custom: Option<String>,
}

pub enum Pat {
    Literal(String),
    Re(Regex),
}

#[derive(Default)]
pub struct Views {
    pub nodes: Vec<View>,
    /// Name and the variants, by the name of the node type.
    pub classes: Vec<(String, Vec<String>)>,
    pub traits: Vec<(String, Vec<Method>)>,
}

pub struct View {
    pub name: String,
    pub ty: String,
    pub methods: Vec<Method>,
    pub traits: Vec<usize>,
}

pub struct Method {
    pub name: String,
    pub child: Child,
    pub arity: Arity,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Arity {
    Single,
    Optional,
    Many,
}

pub enum Child {
    Node(usize),
    Class(usize),
    /// By the name of the type.
    Token(String),
    Text(String),
}

enum Stop {
    Invalid(String),
    Open(&'static str),
}

type Res<T> = Result<T, Stop>;

fn invalid<T>(s: &str) -> Res<T> {
    Err(Stop::Invalid(s.to_owned()))
}

pub fn verdict(m: &M) -> Verdict {
    match compile(m) {
        Ok(model) => Verdict::Valid(model),
        Err(Stop::Invalid(s)) => Verdict::Invalid(s),
        Err(Stop::Open(s)) => Verdict::Open(s),
    }
}

/// The contents of a string literal.
pub fn body(lit: &str) -> &str {
    let q = if lit.starts_with('\'') { '\'' } else { '"' };
    let (s, e) = (lit.find(q).unwrap(), lit.rfind(q).unwrap());
    &lit[s + 1..e]
}

pub fn camel(name: &str) -> String {
    let mut res = String::new();
    for part in name.split('_') {
        let mut cs = part.chars();
        if let Some(c) = cs.next() {
            res.push(c.to_ascii_uppercase());
            res.push_str(cs.as_str());
        }
    }
    res
}

const KEYWORDS: [&str; 51] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
    "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super",
    "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box",
    "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try",
];

/// Names that the generated code refers to.
const USED: [&str; 6] = ["AstNode", "Option", "Box", "Default", "Sync", "Send"];

/// Can it be the name of something in Rust?
pub fn is_name(s: &str) -> bool {
    let plain = s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    let digit = s.chars().next().map_or(true, |c| c.is_ascii_digit());
    plain && !digit && s != "_" && !KEYWORDS.contains(&s)
}

struct C<'a, 'f> {
    m: &'a M<'f>,
    n: Names<'a, 'f>,
    /// Name as written, node of the tree it comes from.
    types: Vec<(String, usize)>,
    params: Vec<usize>,
    contexts: Vec<String>,
    out: Vec<Expr>,
}

fn compile(m: &M) -> Res<Model> {
    if m.has_errors() {
        return invalid("syntax error");
    }
    let n = Names::new(m);
    if let Some(d) = n.diagnostics().into_iter().find(|d| d.0 == 0) {
        return Err(Stop::Invalid(format!("{} at {}", d.3, d.1)));
    }
    for block in &["TOKENIZER_DEF", "VERBATIM_DEF", "AST_DEF"] {
        if m.kids(0, block).count() > 1 {
            return Err(Stop::Open("repeated blocks"));
        }
    }
    if m.kid(0, "TOKENIZER_DEF").is_none() {
        return invalid("no tokens");
    }
    let mut c = C { m, types: Vec::new(), params: Vec::new(), contexts: Vec::new(), out: Vec::new(), n };
    for &t in &c.n.tokens {
        c.types.push((c.ident(t), t));
    }
    for &r in &c.n.rules {
        if m.kid(r, "PUB").is_some() && c.n.attribute(r, "type").is_none() {
            c.types.push((c.ident(r), r));
        }
        c.params.extend(c.n.params(r));
    }
    let mut types = vec![("ERROR".to_owned(), false)];
    for (name, i) in &c.types {
        let up = name.to_ascii_uppercase();
        if !is_name(&up) || up == "LANG" {
            return Err(Stop::Invalid(format!("`{}` is not a name", name)));
        }
        if types.iter().any(|t| t.0 == up) {
            return Err(Stop::Invalid(format!("several types `{}`", up)));
        }
        types.push((up, m.name(*i) == "LEX_RULE" && c.n.attribute(*i, "skip").is_some()));
    }
    if c.params.len() > LIMIT {
        return invalid("too many parameters");
    }
    match c.n.rules.first() {
        Some(&r) if c.ty_name(r)?.is_some() && c.n.attribute(r, "replaces").is_none() && c.n.params(r).is_empty() => (),
        _ => return invalid("bad first rule"),
    }

    let rules = c.n.rules.clone();
    c.out = rules.iter().map(|_| Expr::Any).collect();
    for (i, &r) in rules.iter().enumerate() {
        let e = c.rule(r)?;
        c.out[i] = e;
    }
    let mut lex = Vec::new();
    for &t in &c.n.tokens {
        if c.n.attribute(t, "contextual").is_some() {
            continue;
        }
        let strings: Vec<&str> = m.kids(t, "STRING").map(|s| m.text_of(s)).collect();
        let pat = match strings.first() {
            None => return invalid("token without a pattern"),
            Some(s) if s.starts_with('\'') => Pat::Literal(body(s).to_owned()),
            Some(s) => match Regex::new(&format!("^(?:{})", body(s))) {
                Err(_) => return invalid("bad pattern"),
                // The groups could join what is separate.
                Ok(_) if Regex::new(body(s)).is_err() => return invalid("bad pattern"),
                Ok(re) => Pat::Re(re),
            },
        };
        let empty = match &pat {
            Pat::Literal(s) => s.is_empty(),
            Pat::Re(re) => re.is_match(""),
        };
        if empty {
            return Err(Stop::Open("a token that can be empty"));
        }
        let ty = types.iter().position(|x| x.0 == c.ident(t).to_ascii_uppercase()).unwrap() as u32;
        lex.push(Lex { ty, pat, custom: strings.get(1).map(|s| body(s).to_owned()) });
    }
    let verbatim = m.kid(0, "VERBATIM_DEF").map_or("", |v| m.text_of(v));
    let views = c.views(&types)?;
    Ok(Model { types, lex, exprs: c.out, binder: verbatim.contains("whitespace_binder"), views })
}

impl<'a, 'f> C<'a, 'f> {
    fn ident(&self, i: usize) -> String {
        self.n.ident(i).unwrap_or("").to_owned()
    }

    /// Name of the type of a rule's nodes, if there are any.
    fn ty_name(&self, r: usize) -> Res<Option<String>> {
        if self.m.kid(r, "PUB").is_none() || self.n.attribute(r, "pratt").is_some() {
            return Ok(None);
        }
        match self.n.attribute(r, "type") {
            Some(None) => Err(Stop::Open("`type` without a name")),
            Some(Some(t)) => Ok(Some(t.to_owned())),
            None => Ok(Some(self.ident(r))),
        }
    }

    fn ty(&self, r: usize) -> Res<Option<NodeTypeRef>> {
        match self.ty_name(r)? {
            None => Ok(None),
            Some(name) => self.ty_named(&name).map(Some),
        }
    }

    fn ty_named(&self, name: &str) -> Res<NodeTypeRef> {
        match self.types.iter().position(|t| t.0 == name) {
            Some(i) => Ok(NodeTypeRef(i as u32 + 1)),
            None => Err(Stop::Invalid(format!("no type `{}`", name))),
        }
    }

    fn push(&mut self, e: Expr) -> ExprRef {
        self.out.push(e);
        ExprRef(self.out.len() as u32 - 1)
    }

    fn rule_ref(&self, r: usize) -> ExprRef {
        ExprRef(self.n.rules.iter().position(|&x| x == r).unwrap() as u32)
    }

    fn rule(&mut self, r: usize) -> Res<Expr> {
        let block = match self.n.exprs(r).first() {
            Some(&b) if self.m.name(b) == "BLOCK_EXPR" => b,
            _ => return Err(Stop::Open("a rule without a block")),
        };
        let body = if self.n.attribute(r, "pratt").is_some() {
            let t = self.pratt(r, block)?;
            self.push(Expr::Pratt(Box::new(t)))
        } else {
            self.expr(block)?
        };
        let replaces = self.n.attribute(r, "replaces").is_some();
        let replaceable = self.n.attribute(r, "replaceable").is_some();
        match self.ty(r)? {
            None if replaces => invalid("replaces what?"),
            // Caching does not matter.
            None => Ok(Expr::Or(vec![body])),
            Some(ty) if replaces => Ok(Expr::PubReplace { ty, body }),
            Some(ty) => Ok(Expr::Pub { ty, body, replaceable }),
        }
    }

    fn exprs(&mut self, v: &[usize]) -> Res<Vec<ExprRef>> {
        v.iter().map(|&e| self.expr(e)).collect()
    }

    fn is_commit(&self, e: usize) -> bool {
        self.m.name(e) == "CALL_EXPR" && self.n.ident(e) == Some("commit")
    }

    fn target(&self, e: usize) -> Res<Target> {
        match self.n.resolve_ref(e)[..] {
            [t] => Ok(t),
            [] => invalid("unresolved reference"),
            _ => Err(Stop::Open("a reference with several targets")),
        }
    }

    fn expr(&mut self, e: usize) -> Res<ExprRef> {
        let parts = self.n.exprs(e);
        let res = match self.m.name(e) {
            "BLOCK_EXPR" => Expr::Or(self.exprs(&parts)?),
            "SEQ_EXPR" => {
                let commit = parts.iter().position(|&p| self.is_commit(p));
                let rest: Vec<usize> = parts.into_iter().filter(|&p| !self.is_commit(p)).collect();
                Expr::And(self.exprs(&rest)?, commit)
            }
            "OPT_EXPR" => Expr::Opt(self.expr(parts[0])?),
            "REP_EXPR" => Expr::Rep(self.expr(parts[0])?),
            "REF_EXPR" => match self.target(e)? {
                Target::Param(p) => Expr::Var(self.arg(p)),
                Target::Rule(r) => {
                    if !self.n.params(r).is_empty() {
                        return invalid("missing arguments");
                    }
                    return Ok(self.rule_ref(r));
                }
                Target::Token(t) => {
                    let ty = self.ty_named(&self.ident(t))?;
                    if self.n.attribute(t, "contextual").is_some() {
                        match self.m.kid(t, "STRING").map(|s| self.m.text_of(s)) {
                            Some(s) if s.starts_with('\'') => Expr::ContextualToken(ty, body(s).to_owned()),
                            _ => return invalid("contextual token without a text"),
                        }
                    } else {
                        Expr::Token(ty)
                    }
                }
                _ => unreachable!(),
            },
            "CALL_EXPR" => self.call(e, &parts)?,
            _ => return Err(Stop::Open("an unknown expression")),
        };
        Ok(self.push(res))
    }

    fn arg(&self, p: usize) -> Arg {
        Arg(self.params.iter().position(|&x| x == p).unwrap() as u32)
    }

    fn call(&mut self, e: usize, args: &[usize]) -> Res<Expr> {
        let name = self.ident(e);
        Ok(match self.n.resolve_call(e) {
            Call::Unknown => return invalid("unknown rule"),
            Call::Rule(r) => {
                let mut v = Vec::new();
                for (p, &a) in self.n.params(r).into_iter().zip(args) {
                    v.push((self.arg(p), self.expr(a)?));
                }
                Expr::Call(self.rule_ref(r), v)
            }
            Call::Builtin => match name.as_str() {
                "any" => Expr::Any,
                "eof" => Expr::Eof,
                "commit" => return invalid("commit outside of a sequence"),
                "not" => Expr::Not(self.expr(args[0])?),
                "layer" => Expr::Layer(self.expr(args[0])?, self.expr(args[1])?),
                "with_skip" => Expr::WithSkip(self.expr(args[0])?, self.expr(args[1])?),
                "inject" => Expr::Inject(self.expr(args[0])?, self.expr(args[1])?),
                "is_in" => Expr::IsIn(self.context(e)?),
                "enter" => Expr::Enter(self.context(e)?, self.expr(args[1])?),
                "exit" => Expr::Exit(self.context(e)?, self.expr(args[1])?),
                "prev_is" => {
                    let mut v = Vec::new();
                    for &a in args {
                        match self.target(a)? {
                            Target::Rule(r) => v.push(self.ty(r)?.unwrap()),
                            _ => return invalid("not a rule"),
                        }
                    }
                    Expr::PrevIs(v)
                }
                _ => unreachable!(),
            },
        })
    }

    fn context(&mut self, call: usize) -> Res<Context> {
        let name = self.n.context(call).unwrap().to_owned();
        let i = match self.contexts.iter().position(|c| *c == name) {
            Some(i) => i,
            None => {
                self.contexts.push(name);
                self.contexts.len() - 1
            }
        };
        if i >= LIMIT {
            return invalid("too many contexts");
        }
        Ok(Context(i as u32))
    }

    /// An operand is the rule of the expression itself.
    fn operand(&self, e: usize, pratt: usize) -> Res<()> {
        if self.m.name(e) == "REF_EXPR" && self.target(e)? == Target::Rule(pratt) {
            Ok(())
        } else {
            invalid("the operand is another rule")
        }
    }

    fn pratt(&mut self, pratt: usize, block: usize) -> Res<PrattTable> {
        let mut t = PrattTable { atoms: Vec::new(), prefixes: Vec::new(), infixes: Vec::new() };
        for alt in self.n.exprs(block) {
            let parts = self.n.exprs(alt);
            if self.m.name(alt) != "SEQ_EXPR" || parts.len() != 1 || self.m.name(parts[0]) != "REF_EXPR" {
                return invalid("bad alternative of operator expressions");
            }
            let r = match self.target(parts[0])? {
                Target::Rule(r) if self.n.params(r).is_empty() => r,
                _ => return invalid("bad alternative of operator expressions"),
            };
            let ty = match self.ty(r)? {
                Some(ty) => ty,
                None => return invalid("operator rule without a type"),
            };
            let kind = ["atom", "postfix", "prefix", "bin"].iter().cloned().find(|k| self.n.attribute(r, k).is_some());
            let kind = match kind {
                None => return invalid("operator rule without an attribute"),
                Some("atom") => {
                    t.atoms.push(self.rule_ref(r));
                    continue;
                }
                Some(k) => k,
            };
            let priority: Option<u32> = self.n.attribute(r, kind).unwrap().and_then(|v| v.parse().ok());
            // Diagnostics have checked the form.
            let block = self.n.exprs(r)[0];
            let seq = self.n.exprs(block)[0];
            let parts = self.n.exprs(seq);
            match kind {
                "prefix" => {
                    self.operand(parts[1], pratt)?;
                    let op = self.expr(parts[0])?;
                    t.prefixes.push(Prefix { ty, op, priority: priority.unwrap_or(999) });
                }
                _ => {
                    let has_rhs = kind == "bin";
                    self.operand(parts[0], pratt)?;
                    if has_rhs {
                        self.operand(parts[2], pratt)?;
                    }
                    let op = self.expr(parts[1])?;
                    t.infixes.push(Infix { ty, op, priority: priority.unwrap_or(999), has_rhs });
                }
            }
        }
        Ok(t)
    }

    fn views(&self, types: &[(String, bool)]) -> Res<Views> {
        let mut v = Views::default();
        let mut names: Vec<String> = Vec::new();
        let mut declare = |i: usize| -> Res<String> {
            let name = camel(&self.ident(i));
            if !is_name(&name) || USED.contains(&name.as_str()) {
                return invalid("not a name for a view");
            }
            if names.contains(&name) {
                return invalid("several views of a name");
            }
            names.push(name.clone());
            Ok(name)
        };
        for &t in &self.n.traits {
            let name = declare(t)?;
            v.traits.push((name, self.methods(t)?));
        }
        for &d in &self.n.nodes {
            let name = declare(d)?;
            let ty = self.ident(d).to_ascii_uppercase();
            if !types.iter().any(|t| t.0 == ty) {
                return invalid("a view of an unknown type");
            }
            let kids = &self.m.nodes[d].children;
            let colon = kids.iter().position(|&k| self.m.name(k) == "COLON").unwrap_or(kids.len());
            let mut traits = Vec::new();
            for &k in &kids[colon..] {
                if self.m.name(k) == "IDENT" {
                    let name = self.m.text_of(k);
                    let found: Vec<usize> =
                        (0..self.n.traits.len()).filter(|&t| self.n.ident(self.n.traits[t]) == Some(name)).collect();
                    match found[..] {
                        [t] => traits.push(t),
                        _ => return Err(Stop::Open("a trait declared repeatedly")),
                    }
                }
            }
            traits.sort();
            traits.dedup();
            v.nodes.push(View { name, ty, methods: self.methods(d)?, traits });
        }
        let n_classes = self.n.classes.len();
        for &d in &self.n.classes {
            let name = declare(d)?;
            let variants: Vec<String> = self.m.kids(d, "IDENT").skip(1).map(|k| self.m.text_of(k).to_owned()).collect();
            let mut res: Vec<String> = Vec::new();
            for name in variants {
                let name = camel(&name);
                if v.nodes.iter().all(|n| n.name != name) {
                    let class = (0..n_classes).any(|k| camel(&self.ident(self.n.classes[k])) == name);
                    return if class { Err(Stop::Open("a class in a class")) } else { invalid("unknown variant") };
                }
                if res.contains(&name) {
                    return invalid("repeated variant");
                }
                res.push(name);
            }
            if res.is_empty() {
                return Err(Stop::Open("an empty class"));
            }
            v.classes.push((name, res));
        }
        Ok(v)
    }

    fn methods(&self, decl: usize) -> Res<Vec<Method>> {
        let mut res: Vec<Method> = Vec::new();
        for d in self.m.kids(decl, "METHOD_DEF") {
            let name = self.ident(d);
            if !is_name(&name) || name == "node" || name == "wrap" {
                return invalid("not a name for a method");
            }
            if res.iter().any(|m| m.name == name) {
                return invalid("several methods of a name");
            }
            let s = match self.m.kid(d, "AST_SELECTOR") {
                Some(s) => s,
                None => return invalid("no selector"),
            };
            let arity = if self.m.kid(s, "QUESTION").is_some() {
                Arity::Optional
            } else if self.m.kid(s, "STAR").is_some() {
                Arity::Many
            } else {
                Arity::Single
            };
            if self.m.kids(s, "IDENT").nth(1).map_or(false, |k| self.m.text_of(k) != "text") {
                return Err(Stop::Open("neither the node nor its text"));
            }
            let child = match self.n.resolve_method(d) {
                None => return invalid("bad method"),
                Some((Target::Node(n), _)) => Child::Node(self.n.nodes.iter().position(|&x| x == n).unwrap()),
                Some((Target::Class(n), _)) => Child::Class(self.n.classes.iter().position(|&x| x == n).unwrap()),
                Some((Target::Token(t), text)) => {
                    if arity == Arity::Many {
                        return invalid("bad method");
                    }
                    let ty = self.ident(t).to_ascii_uppercase();
                    if text { Child::Text(ty) } else { Child::Token(ty) }
                }
                _ => unreachable!(),
            };
            res.push(Method { name, child, arity });
        }
        Ok(res)
    }
}
