//! Sources of trees.

use std::sync::Arc;

use fall_tree::File;
use mcparse::c10::grammars;
use mcparse::gram::Gram;
use mcparse::lang::char_lexer;
use mcparse::langs::{self, Shipped};
pub use mcparse::tree::M;

/// A source of trees: a language, and texts to parse.
pub struct Source {
    pub name: String,
    pub parse: Box<dyn Fn(&str) -> File + Send + Sync>,
    pub texts: Vec<String>,
    pub shipped: Option<Arc<Shipped>>,
}

/// Synthetic grammars with texts of up to `n` pieces.
pub fn synthetic(n: u32) -> Vec<Source> {
    let lexer = char_lexer();
    let binders = mcparse::c10::binders();
    let texts = mcparse::gram::texts(&["a", "b", "c", " ", "é"], n);
    grammars()
        .into_iter()
        .enumerate()
        .map(|(i, rules)| {
            let g = Gram::with_binder(&lexer, rules, binders[i % binders.len()].1);
            let texts = texts.iter().filter(|t| g.spec(t).is_ok()).cloned().collect();
            let name = mcparse::lang::show_rules(&g.rules);
            let lang = g.lang.clone();
            Source {
                name,
                parse: Box::new(move |t| lang.parse(t.to_owned())),
                texts,
                shipped: None,
            }
        })
        .collect()
}

/// Samples of the shipped languages, up to a length, and short texts in all frames.
pub fn shipped(max_len: usize, pieces: bool) -> Vec<Source> {
    langs::all()
        .into_iter()
        .map(|s| {
            let mut texts: Vec<String> = s.samples.iter().filter(|t| t.len() <= max_len).cloned().collect();
            texts.push(String::new());
            if pieces {
                for f in &s.frames {
                    for p in &s.pieces {
                        texts.push(format!("{}{}{}", f.0, p, f.1));
                    }
                }
            }
            let lang = s.lang;
            let name = s.name.to_owned();
            Source {
                name,
                parse: Box::new(move |t| lang().parse(t.to_owned())),
                texts,
                shipped: Some(Arc::new(s)),
            }
        })
        .collect()
}

/// Trees with many children and with deep nesting: texts of the shipped languages in which
/// one piece is repeated so many times.
pub fn large(flat: &[usize], deep: &[usize]) -> Vec<Source> {
    // before, piece, after, piece that closes; deep ones have something that closes
    let shapes = |name: &str| -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
        match name {
            "json" => vec![
                ("[", "1,", "1]", ""), ("[", "é,", "]", ""), ("{", "\"a\": 1, ", "\"b\": 2}", ""),
                ("", "[", "", "]"), ("", "{\"a\":", "1", "}"), ("", "[", "", ""),
            ],
            "arith" => vec![("", "1+", "1", ""), ("", "(", "1", ")"), ("", "-", "1", ""), ("1", "!", "", "")],
            "sexp" => vec![("(", "a ", ")", ""), ("", "(", "", ")"), ("", "(", "a", " b)")],
            "bnf" => vec![("", "S -> a\n", "", ""), ("S -> ", "a | ", "b", "")],
            "fall" => vec![
                ("", "rule a { b }\n", "", ""), ("rule a { ", "b ", "}", ""), ("rule a { ", "{", "b", "} }"),
                ("rule a { ", "<x ", "b", ">"), ("tokenizer { ", "x 'x'\n", "}", ""),
            ],
            "rust" => vec![
                ("", "fn f() {}\n", "", ""), ("fn f() { ", "x; ", "}", ""), ("", "mod m { ", "", "}"),
                ("fn f(", "x: i32, ", ") {}", ""), ("fn f() { ", "(", "x", ") "), ("struct S<", "T, ", ">;", ""),
            ],
            _ => vec![],
        }
    };
    langs::all()
        .into_iter()
        .map(|s| {
            let mut texts = Vec::new();
            for (open, unit, middle, close) in shapes(s.name) {
                for &n in if close == "" { flat } else { deep } {
                    texts.push(format!("{}{}{}{}", open, unit.repeat(n), middle, close.repeat(n)));
                }
            }
            let lang = s.lang;
            Source {
                name: s.name.to_owned(),
                parse: Box::new(move |t| lang().parse(t.to_owned())),
                texts,
                shipped: Some(Arc::new(s)),
            }
        })
        .collect()
}
