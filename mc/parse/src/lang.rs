//! Synthetic languages: a grammar given as data plus a lexer.

use std::any::Any;
use std::sync::Arc;

use fall_parse::runtime as rt;
use fall_parse::{Arg, Context, Expr, ExprRef, Infix, LexRule, NodeTypeRef, ParserDefinition, PrattTable, Prefix, RegexLexer};
use fall_tree::{File, Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};

pub const WS: u32 = 1;
pub const COMMENT: u32 = 2;
pub const A: u32 = 3;
pub const B: u32 = 4;
pub const C: u32 = 5;
pub const D: u32 = 6;
pub const LP: u32 = 7;
pub const RP: u32 = 8;
pub const PLUS: u32 = 9;
pub const MINUS: u32 = 10;
pub const STAR: u32 = 11;
pub const BANG: u32 = 12;
/// Contextual tokens.
pub const X1: u32 = 13;
pub const X2: u32 = 14;
/// Nodes.
pub const FILE: u32 = 15;
pub const N1: u32 = 16;
pub const N2: u32 = 17;
pub const N3: u32 = 18;
pub const N4: u32 = 19;
pub const N5: u32 = 20;
pub const N6: u32 = 21;
pub const N7: u32 = 22;
pub const N_TYPES: u32 = 23;

static NAMES: [&str; N_TYPES as usize] = [
    "ERROR", "WS", "COMMENT", "a", "b", "c", "d", "(", ")", "+", "-", "*", "!", "x1", "x2", "FILE",
    "N1", "N2", "N3", "N4", "N5", "N6", "N7",
];

pub fn name(ty: u32) -> &'static str {
    NAMES[ty as usize]
}

/// Expressions of a grammar, close to the grammar language.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    T(u32),
    Ctx(u32, &'static str),
    Any,
    Eof,
    Seq(Vec<E>, Option<usize>),
    Or(Vec<E>),
    Rep(Box<E>),
    Opt(Box<E>),
    Not(Box<E>),
    R(usize),
    Skip(Box<E>, Box<E>),
    Layer(Box<E>, Box<E>),
    Enter(u32, Box<E>),
    Exit(u32, Box<E>),
    IsIn(u32),
    Call(usize, Vec<(u32, E)>),
    Var(u32),
    Prev(Vec<u32>),
    Inject(Box<E>, Box<E>),
    Cached(Box<E>),
    Pratt(Table),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub atoms: Vec<E>,
    /// type, operator, priority
    pub prefixes: Vec<(u32, E, u32)>,
    /// type, operator, priority, has right operand
    pub infixes: Vec<(u32, E, u32, bool)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Pub(u32, E),
    Replaceable(u32, E),
    Replaces(u32, E),
    Private(E),
}

pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
pub fn seq(v: Vec<E>) -> E {
    E::Seq(v, None)
}
pub fn or(v: Vec<E>) -> E {
    E::Or(v)
}
pub fn rep(e: E) -> E {
    E::Rep(bx(e))
}
pub fn opt(e: E) -> E {
    E::Opt(bx(e))
}
pub fn not(e: E) -> E {
    E::Not(bx(e))
}

pub fn show(e: &E) -> String {
    let list = |v: &[E]| v.iter().map(show).collect::<Vec<_>>().join(" ");
    match e {
        E::T(t) => name(*t).to_owned(),
        E::Ctx(t, s) => format!("'{}':{}", s, name(*t)),
        E::Any => "<any>".to_owned(),
        E::Eof => "<eof>".to_owned(),
        E::Seq(v, None) => format!("{{{}}}", list(v)),
        E::Seq(v, Some(c)) => format!("{{{} <commit> {}}}", list(&v[..*c]), list(&v[*c..])),
        E::Or(v) => format!("{{{}}}", v.iter().map(show).collect::<Vec<_>>().join(" | ")),
        E::Rep(e) => format!("{}*", show(e)),
        E::Opt(e) => format!("{}?", show(e)),
        E::Not(e) => format!("<not {}>", show(e)),
        E::R(i) => format!("r{}", i),
        E::Skip(a, b) => format!("<with_skip {} {}>", show(a), show(b)),
        E::Layer(a, b) => format!("<layer {} {}>", show(a), show(b)),
        E::Enter(c, e) => format!("<enter {} {}>", c, show(e)),
        E::Exit(c, e) => format!("<exit {} {}>", c, show(e)),
        E::IsIn(c) => format!("<is_in {}>", c),
        E::Call(r, args) => format!(
            "<r{} {}>",
            r,
            args.iter().map(|(p, e)| format!("p{}={}", p, show(e))).collect::<Vec<_>>().join(" ")
        ),
        E::Var(p) => format!("p{}", p),
        E::Prev(ts) => format!("<prev_is {}>", ts.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" ")),
        E::Inject(a, b) => format!("<inject {} {}>", show(a), show(b)),
        E::Cached(e) => format!("<cached {}>", show(e)),
        E::Pratt(t) => format!(
            "<pratt atoms[{}] prefix[{}] infix[{}]>",
            t.atoms.iter().map(show).collect::<Vec<_>>().join(", "),
            t.prefixes
                .iter()
                .map(|(t, e, p)| format!("{}:{}@{}", name(*t), show(e), p))
                .collect::<Vec<_>>()
                .join(", "),
            t.infixes
                .iter()
                .map(|(t, e, p, r)| format!("{}:{}@{}{}", name(*t), show(e), p, if *r { "" } else { "post" }))
                .collect::<Vec<_>>()
                .join(", "),
        ),
    }
}

pub fn show_rules(rules: &[Rule]) -> String {
    rules
        .iter()
        .enumerate()
        .map(|(i, r)| match r {
            Rule::Pub(t, e) => format!("pub r{}:{} {}", i, name(*t), show(e)),
            Rule::Replaceable(t, e) => format!("replaceable pub r{}:{} {}", i, name(*t), show(e)),
            Rule::Replaces(t, e) => format!("replaces pub r{}:{} {}", i, name(*t), show(e)),
            Rule::Private(e) => format!("r{} {}", i, show(e)),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// Flattens a grammar to the form that the engine interprets.
pub fn compile(rules: &[Rule]) -> Vec<Expr> {
    let mut out: Vec<Expr> = rules.iter().map(|_| Expr::Any).collect();
    for (i, r) in rules.iter().enumerate() {
        let e = match r {
            Rule::Pub(t, e) => Expr::Pub { ty: NodeTypeRef(*t), body: add(&mut out, e), replaceable: false },
            Rule::Replaceable(t, e) => Expr::Pub { ty: NodeTypeRef(*t), body: add(&mut out, e), replaceable: true },
            Rule::Replaces(t, e) => Expr::PubReplace { ty: NodeTypeRef(*t), body: add(&mut out, e) },
            Rule::Private(e) => conv(&mut out, e),
        };
        out[i] = e;
    }
    out
}

fn add(out: &mut Vec<Expr>, e: &E) -> ExprRef {
    if let E::R(i) = e {
        return ExprRef(*i as u32);
    }
    let e = conv(out, e);
    out.push(e);
    ExprRef(out.len() as u32 - 1)
}

fn conv(out: &mut Vec<Expr>, e: &E) -> Expr {
    match e {
        E::T(t) => Expr::Token(NodeTypeRef(*t)),
        E::Ctx(t, s) => Expr::ContextualToken(NodeTypeRef(*t), (*s).to_owned()),
        E::Any => Expr::Any,
        E::Eof => Expr::Eof,
        E::Seq(v, c) => Expr::And(v.iter().map(|e| add(out, e)).collect(), *c),
        E::Or(v) => Expr::Or(v.iter().map(|e| add(out, e)).collect()),
        E::Rep(e) => Expr::Rep(add(out, e)),
        E::Opt(e) => Expr::Opt(add(out, e)),
        E::Not(e) => Expr::Not(add(out, e)),
        E::R(i) => Expr::Or(vec![ExprRef(*i as u32)]),
        E::Skip(a, b) => {
            let a = add(out, a);
            Expr::WithSkip(a, add(out, b))
        }
        E::Layer(a, b) => {
            let a = add(out, a);
            Expr::Layer(a, add(out, b))
        }
        E::Enter(c, e) => Expr::Enter(Context(*c), add(out, e)),
        E::Exit(c, e) => Expr::Exit(Context(*c), add(out, e)),
        E::IsIn(c) => Expr::IsIn(Context(*c)),
        E::Call(r, args) => {
            Expr::Call(ExprRef(*r as u32), args.iter().map(|(p, e)| (Arg(*p), add(out, e))).collect())
        }
        E::Var(p) => Expr::Var(Arg(*p)),
        E::Prev(ts) => Expr::PrevIs(ts.iter().map(|t| NodeTypeRef(*t)).collect()),
        E::Inject(a, b) => {
            let a = add(out, a);
            Expr::Inject(a, add(out, b))
        }
        E::Cached(e) => Expr::Cached(add(out, e)),
        E::Pratt(t) => Expr::Pratt(Box::new(PrattTable {
            atoms: t.atoms.iter().map(|e| add(out, e)).collect(),
            prefixes: t
                .prefixes
                .iter()
                .map(|(t, e, p)| Prefix { ty: NodeTypeRef(*t), op: add(out, e), priority: *p })
                .collect(),
            infixes: t
                .infixes
                .iter()
                .map(|(t, e, p, r)| Infix { ty: NodeTypeRef(*t), op: add(out, e), priority: *p, has_rhs: *r })
                .collect(),
        })),
    }
}

pub type Binder = fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize;

pub fn no_binder(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize {
    0
}

struct Info;

impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn reparse(
        &self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder,
    ) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        NodeTypeInfo { name: NAMES[ty.0 as usize], whitespace_like: ty.0 == WS || ty.0 == COMMENT }
    }
}

struct Synthetic {
    lexer: Arc<RegexLexer>,
    def: ParserDefinition,
    info: Language,
}

impl LanguageImpl for Synthetic {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        rt::parse(&self.info, &self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(
        &self, incremental_data: &dyn Any, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder,
    ) -> Option<Box<dyn Any + Sync + Send>> {
        rt::reparse(&self.info, &self.lexer, &self.def, incremental_data, edit, new_text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        self.info.node_type_info(ty)
    }
}

thread_local! {
    static INFO: Language = Language::new(Info);
}

pub fn make(lexer: &Arc<RegexLexer>, exprs: Vec<Expr>, binder: Binder) -> Language {
    Language::new(Synthetic {
        lexer: lexer.clone(),
        def: ParserDefinition {
            node_types: (0..N_TYPES).map(NodeType).collect(),
            syntactical_rules: exprs,
            whitespace_binder: binder,
        },
        info: INFO.with(|i| i.clone()),
    })
}

/// Token rules; every thread compiles its own lexer.
#[derive(Clone)]
pub struct Lexer(Arc<Vec<(u32, String, Option<fall_parse::CustomLexRule>)>>);

thread_local! {
    static LEXERS: std::cell::RefCell<Vec<(Lexer, Arc<RegexLexer>)>> = Default::default();
}

impl Lexer {
    pub fn new(rules: &[(u32, &str)]) -> Lexer {
        Lexer(Arc::new(rules.iter().map(|(t, re)| (*t, (*re).to_owned(), None)).collect()))
    }

    pub fn custom(rules: &[(u32, &str, Option<fall_parse::CustomLexRule>)]) -> Lexer {
        Lexer(Arc::new(rules.iter().map(|(t, re, f)| (*t, (*re).to_owned(), *f)).collect()))
    }

    pub fn rules(&self) -> &[(u32, String, Option<fall_parse::CustomLexRule>)] {
        &self.0
    }

    pub fn get(&self) -> Arc<RegexLexer> {
        LEXERS.with(|c| {
            let mut c = c.borrow_mut();
            if let Some((_, l)) = c.iter().find(|(k, _)| Arc::ptr_eq(&k.0, &self.0)) {
                return l.clone();
            }
            let l = Arc::new(RegexLexer::new(
                self.0.iter().map(|(t, re, f)| LexRule::new(NodeType(*t), re, *f)).collect(),
            ));
            if c.len() >= 64 {
                c.remove(0);
            }
            c.push((self.clone(), l.clone()));
            l
        })
    }
}

/// One-character tokens, except for whitespace runs.
pub fn char_lexer() -> Lexer {
    Lexer::new(&[
        (WS, r"\s+"),
        (COMMENT, "#"),
        (A, "a"),
        (B, "b"),
        (C, "c"),
        (D, "d"),
        (LP, r"\("),
        (RP, r"\)"),
        (PLUS, r"\+"),
        (MINUS, "-"),
        (STAR, r"\*"),
        (BANG, "!"),
    ])
}

/// Lexing by the definition of [`char_lexer`]: (type, start, length).
pub fn char_lex(text: &str) -> Vec<(u32, u32, u32)> {
    let b = text.as_bytes();
    let mut res = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let ty = match b[i] {
            b' ' | b'\n' => {
                while i + 1 < b.len() && (b[i + 1] == b' ' || b[i + 1] == b'\n') {
                    i += 1;
                }
                WS
            }
            b'#' => COMMENT,
            b'a' => A,
            b'b' => B,
            b'c' => C,
            b'd' => D,
            b'(' => LP,
            b')' => RP,
            b'+' => PLUS,
            b'-' => MINUS,
            b'*' => STAR,
            b'!' => BANG,
            _ => {
                while i + 1 < b.len() && !b" \n#abcd()+-*!".contains(&b[i + 1]) {
                    i += 1;
                }
                0
            }
        };
        i += 1;
        res.push((ty, start as u32, (i - start) as u32));
    }
    res
}

pub fn parse(lang: &Language, text: &str) -> File {
    lang.parse(text.to_owned())
}
