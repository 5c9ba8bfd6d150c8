//! Running one synthetic grammar against its reference semantics.

use fall_parse::Expr;
use fall_tree::{Language, NodeType};
use mccore::util::{fnv_mix, nth_string, n_strings};
use mccore::Ctx;

use crate::lang::*;
use crate::shape::check_shape;
use crate::spec::{self, Ill, Tree};

pub struct Gram {
    pub rules: Vec<Rule>,
    pub exprs: Vec<Expr>,
    pub lang: Language,
    pub binder: Binder,
}

impl Gram {
    pub fn new(lexer: &Lexer, rules: Vec<Rule>) -> Gram {
        Gram::with_binder(lexer, rules, no_binder)
    }

    pub fn with_binder(lexer: &Lexer, rules: Vec<Rule>, binder: Binder) -> Gram {
        let exprs = compile(&rules);
        let lang = make(&lexer.get(), compile(&rules), binder);
        Gram { rules, exprs, lang, binder }
    }

    pub fn types() -> Vec<NodeType> {
        (0..N_TYPES).map(NodeType).collect()
    }

    pub fn key(&self, text: &str) -> String {
        format!("{} on {:?}", show_rules(&self.rules), text)
    }

    pub fn spec(&self, text: &str) -> Result<Expected, Ill> {
        self.spec_bounded(text, 20_000)
    }

    pub fn spec_bounded(&self, text: &str, max_steps: u32) -> Result<Expected, Ill> {
        let raw = char_lex(text);
        let sig: Vec<_> = raw.iter().cloned().filter(|t| t.0 != WS && t.0 != COMMENT).collect();
        let tree = spec::parse_bounded(&self.exprs, &Gram::types(), text, &sig, max_steps)?;
        Ok(Expected { tree, raw })
    }

    /// Compares the implementation to the reference on one text.
    pub fn compare(&self, text: &str, want: &Expected) -> Result<u64, String> {
        let file = self.lang.parse(text.to_owned());
        check_shape(&file, text)?;
        self.compare_file(&file, text, want)
    }

    pub fn compare_file(&self, file: &fall_tree::File, text: &str, want: &Expected) -> Result<u64, String> {
        let binder = self.binder;
        let expected = spec::place_whitespace(
            &want.tree,
            &want.raw,
            &|t| t == WS || t == COMMENT,
            &|ty, run, leading| {
                let v: Vec<(NodeType, &str)> = run
                    .iter()
                    .map(|&(t, s, l)| (NodeType(t), &text[s as usize..(s + l) as usize]))
                    .collect();
                if ty == FILE { v.len() } else { binder(NodeType(ty), v, leading) }
            },
        );
        let actual = spec::flatten_file(file, &|_| true);
        if actual != expected {
            return Err(format!(
                "expected tree: {}\n  actual tree: {}", show_tree(&expected), show_tree(&actual)
            ));
        }
        Ok(actual.iter().fold(7, |h, &x| fnv_mix(h, x)))
    }

    /// Explores all texts of a list.
    pub fn explore<'t, I: IntoIterator<Item = &'t str>>(&self, texts: I, ctx: &mut Ctx) {
        self.explore_bounded(texts, 20_000, ctx)
    }

    pub fn explore_bounded<'t, I: IntoIterator<Item = &'t str>>(&self, texts: I, max_steps: u32, ctx: &mut Ctx) {
        for text in texts {
            match self.spec_bounded(text, max_steps) {
                Err(_) => {
                    ctx.count("outside_of_the_domain", 1);
                    ctx.beat();
                }
                Ok(want) => {
                    ctx.state();
                    ctx.check(&|| self.key(text), || self.compare(text, &want));
                }
            }
        }
        ctx.sample(|| show_rules(&self.rules));
    }
}

pub struct Expected {
    pub tree: Tree,
    pub raw: Vec<(u32, u32, u32)>,
}

pub fn show_tree(v: &[u64]) -> String {
    spec::show_flat(v, &|t| name(t).to_owned())
}

/// All texts over the pieces, with at most `n` pieces.
pub fn texts(pieces: &[&str], n: u32) -> Vec<String> {
    let k = pieces.len() as u64;
    (0..n_strings(k, n))
        .map(|i| nth_string(k, i).into_iter().map(|d| pieces[d]).collect())
        .collect()
}

/// All expressions with exactly `1..=n` constructors, by size.
pub fn terms(n: usize, leaves: &[E], unary: &[fn(E) -> E], binary: &[fn(E, E) -> E]) -> Vec<E> {
    let mut by_size: Vec<Vec<E>> = vec![Vec::new(), leaves.to_vec()];
    for size in 2..=n {
        let mut v = Vec::new();
        for e in &by_size[size - 1] {
            for u in unary {
                v.push(u(e.clone()));
            }
        }
        for l in 1..size - 1 {
            let r = size - 1 - l;
            for a in &by_size[l] {
                for b in &by_size[r] {
                    for f in binary {
                        v.push(f(a.clone(), b.clone()));
                    }
                }
            }
        }
        by_size.push(v);
    }
    by_size.into_iter().take(n + 1).flatten().collect()
}

pub fn seq2(a: E, b: E) -> E {
    seq(vec![a, b])
}
pub fn or2(a: E, b: E) -> E {
    or(vec![a, b])
}
