//! The languages shipped with the repository, with sample texts and the
//! pieces that texts are composed of.

use fall_tree::{File, Language, Node};

pub struct Shipped {
    pub name: &'static str,
    pub lang: fn() -> &'static Language,
    pub file_type: &'static str,
    /// Small texts that use all constructs.
    pub samples: Vec<String>,
    /// One text for every kind of token, plus malformed ones.
    pub pieces: Vec<&'static str>,
    /// The most telling pieces, for longer sequences.
    pub core: Vec<&'static str>,
    /// Text before and after a sequence of pieces.
    pub frames: Vec<(&'static str, &'static str)>,
}

fn split(s: &str) -> Vec<String> {
    s.split("\n=====\n").map(|s| s.to_owned()).collect()
}

fn own(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| (*s).to_owned()).collect()
}

pub fn all() -> Vec<Shipped> {
    vec![
        Shipped {
            name: "json",
            lang: lang_json::lang_json,
            file_type: "FILE",
            samples: own(&[
                r#"{ "foo": [1, 2, 3], "b": null, "c": {"d": true, "e": []} }"#,
                r#"[1, "x", {}, [[null]], {"a": {"b": [false]}}]"#,
                r#" {"a": 1 "b": 2, , "c" 3, "d":, foo "e": [1 2, ?]} "#,
            ]),
            pieces: vec!["{", "}", "[", "]", ":", ",", "null", "true", "\"a\"", "\"", "1", " ", "?", "x", "é", "\n"],
            core: vec!["{", "}", "[", "]", ":", ",", "\"a\"", "1"],
            frames: vec![("", ""), ("{", "}"), ("[", "]"), ("{\"a\": [", "], \"b\": 1}")],
        },
        Shipped {
            name: "bnf",
            lang: lang_bnf::lang_bnf,
            file_type: "GRAMMAR",
            samples: split(include_str!("../../samples/bnf.txt")),
            pieces: vec!["->", "|", "'t'", "S", "'", " ", "-", ">", "\n", "?", "é"],
            core: vec!["->", "|", "'t'", "S ", "?"],
            frames: vec![("", ""), ("S -> ", "\nT -> S"), ("S -> A | ", " B -> 'c'")],
        },
        Shipped {
            name: "arith",
            lang: fall_test::arith::language,
            file_type: "FILE",
            samples: own(&["1 + --1! - -2!", "(1 + 2) * 3! / -(4) - 5", "(1 + * 2) ) 3 ("]),
            pieces: vec!["1", "+", "-", "*", "/", "!", "(", ")", " ", "?"],
            core: vec!["1", "+", "-", "*", "!", "(", ")"],
            frames: vec![("", ""), ("1 + ", " * 2"), ("(", ")")],
        },
        Shipped {
            name: "sexp",
            lang: fall_test::sexp::language,
            file_type: "FILE",
            samples: own(&["(a (b c) () d) e", "(() (a"]),
            pieces: vec!["a", "(", ")", " ", "?", "é"],
            core: vec!["a ", "(", ")"],
            frames: vec![("", ""), ("(", ")")],
        },
        Shipped {
            name: "weird",
            lang: fall_test::weird::language,
            file_type: "FILE",
            samples: own(&[
                "_1 r##\"f#\"o\"#o\"##",
                "_2 hello ",
                "_3 foo foo",
                "_3 foo bar",
                "_4 { foo {bar} {{} r\"x\"} } ",
            ]),
            pieces: vec!["_1", "_2", "_3", "_4", "r\"x\"", "r#\"x\"#", "foo", "bar", "hello", "{", "}", " ", "?", "r\"", "#"],
            core: vec!["_2 ", "_3 ", "_4", "foo ", "bar ", "{", "}"],
            frames: vec![("", ""), ("_4 {", "}"), ("_3 foo ", "")],
        },
        Shipped {
            name: "fall",
            lang: lang_fall_syntax::lang_fall,
            file_type: "FALL_FILE",
            samples: {
                let mut v = split(include_str!("../../samples/fall.txt"));
                v.truncate(1);
                v.extend(own(&[
                    "tokenizer { #[skip] whitespace r\"\\s+\" foo 'foo' bar r\"b\" 'parse_b' } // c\n",
                    "#[pratt]\npub rule expr { a | b }\n#[bin(1), type(x)] pub rule a { expr '+' expr }\n#[atom] rule b { ident? <not {'x' | y}>* }",
                    "rule list(el, sep) { {el <commit> {<eof> | sep}}* }\nrule x { <list 'a' ','> } verbatim r#\"fn f() {}\"#",
                    "ast { trait t { name ident?.text xs x* } node n: t, u { body expr } class c { a b } } test r\"x\"",
                    "pub rule a { <enter 'ctx' <is_in 'ctx'>> <layer x y> <any> }\n\npub rule { } rule b { a ) }",
                    "foo rule a { rule b { } } #[x] pub { ] < tokenizer { a } ast { foo node }",
                ]));
                v
            },
            pieces: vec![
                "node ", "class ", "trait ", "tokenizer ", "rule ", "verbatim ", "ast ", "pub ", "test ", "=", "|", "*", "?", ".",
                ",", ":", "#", "{", "}", "[", "]", "<", ">", "(", ")", "1", "'s'", "r\"h\"", "x ", " ", "//c\n", "'", "é", "+", "r",
            ],
            core: vec!["rule ", "pub ", "x ", "{", "}", "'s'", "|", "<", ">", "?", "#", "[", "]", "(", ")"],
            frames: vec![
                ("", ""),
                ("rule a { ", " } rule b { }"),
                ("pub rule a ", "\npub rule b { a }"),
                ("tokenizer { ", " } pub rule a { x }"),
                ("ast { ", " }"),
                ("#[", "] rule a { b }"),
            ],
        },
        Shipped {
            name: "rust",
            lang: lang_rust_syntax::lang_rust,
            file_type: "FILE",
            samples: split(include_str!("../../samples/rust.txt")),
            pieces: vec![
                "union ", "as ", "crate ", "extern ", "fn ", "let ", "pub ", "struct ", "use ", "mod ", "if ", "else ", "enum ",
                "impl ", "self ", "super ", "type ", "const ", "static ", "for ", "loop ", "while ", "move ", "mut ", "ref ",
                "trait ", "match ", "return ", "continue ", "break ", "in ", "unsafe ", "where ", "(", ")", "{", "}", "<", ">", "[",
                "]", "->", "=>", "=", "==", "!=", ">=", "<=", ";", ":", "::", ",", ".", "..", "...", "#", "$", "*", "*=", "/", "/=",
                "%", "+", "+=", "-", "&", "&=", "|", "|=", "_ ", "!", "?", "^", "^=", "'c'", "'a ", "true ", "1 ", "\"s\"", "r\"s\"",
                "x ", " ", "//c\n", "/*c*/", "\"", "'", "/*", "r#\"", "é", "€", "\\",
            ],
            core: vec![
                "fn ", "x ", "(", ")", "{", "}", "<", ">", ";", ":", "::", ",", "!", "#", "[", "]", "=", "&", "|", "1 ", "'a ", "..",
                "if ", "match ", "=>", "struct ", "let ", "for ", "impl ",
            ],
            frames: vec![
                ("", ""),
                ("fn f() { ", " }"),
                ("fn f() { let x = ", "; }"),
                ("type T = ", "; struct S;"),
                ("fn f() { let ", " = 1; }"),
                ("fn f(", ") {} fn g() {}"),
                ("struct S<", "> {} fn g() {}"),
                ("enum E { ", " } fn g() {}"),
                ("impl S { ", " } fn g() {}"),
                ("fn f() { match x { ", " } }"),
                ("fn f() { if ", " {} }"),
            ],
        },
    ]
}

fn leaves(n: Node, out: &mut Vec<usize>) {
    if crate::spec::is_leaf(n) {
        out.push(n.range().end().utf8_len() as usize);
    } else {
        for c in n.children() {
            leaves(c, out);
        }
    }
}

/// Token boundaries, ends of the text included.
pub fn token_cuts(file: &File) -> Vec<usize> {
    let mut v = vec![0];
    leaves(file.root(), &mut v);
    v
}
