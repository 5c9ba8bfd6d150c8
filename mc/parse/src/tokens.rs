//! Reference tokenizers of the shipped languages, and the check of the
//! leaves of a tree against them.

use std::collections::HashMap;

use fall_tree::{File, NodeType};

use crate::spec;

pub enum M {
    L(&'static str),
    F(fn(&str) -> Option<usize>),
    /// Start of the token and the recognizer of its end.
    X(fn(&str) -> Option<usize>, fn(&str) -> Option<usize>),
}
use self::M::*;

fn span(s: &str, ok: fn(char) -> bool) -> usize {
    s.chars().take_while(|c| ok(*c)).map(|c| c.len_utf8()).sum()
}
fn some(s: &str, ok: fn(char) -> bool) -> Option<usize> {
    match span(s, ok) {
        0 => None,
        n => Some(n),
    }
}
fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn spaces(s: &str) -> Option<usize> {
    some(s, char::is_whitespace)
}
fn digits(s: &str) -> Option<usize> {
    some(s, char::is_numeric)
}
fn words(s: &str) -> Option<usize> {
    some(s, word)
}
fn ident(s: &str) -> Option<usize> {
    let c = s.chars().next()?;
    if c.is_alphabetic() || c == '_' { words(s) } else { None }
}
fn comment(s: &str) -> Option<usize> {
    if s.starts_with("//") { Some(span(s, |c| c != '\n')) } else { None }
}
fn comment_nl(s: &str) -> Option<usize> {
    let n = comment(s)?;
    Some(if s[n..].starts_with('\n') { n + 1 } else { n })
}
fn open_comment(s: &str) -> Option<usize> {
    if s.starts_with("/*") { Some(2) } else { None }
}
/// Nested; an unterminated one extends to the end.
fn block_comment(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let (mut at, mut depth) = (0, 0);
    while at < b.len() {
        if b[at..].starts_with(b"/*") {
            depth += 1;
            at += 2;
        } else if b[at..].starts_with(b"*/") {
            depth -= 1;
            at += 2;
            if depth == 0 {
                return Some(at);
            }
        } else {
            at += 1;
        }
    }
    Some(b.len())
}
fn open_raw(s: &str) -> Option<usize> {
    let rest = s.strip_prefix('r')?;
    let n = span(rest, |c| c == '#');
    if rest[n..].starts_with('"') { Some(n + 2) } else { None }
}
/// Up to a quote followed by as many hashes as there are in front.
fn raw_string(s: &str) -> Option<usize> {
    let open = open_raw(s)?;
    let hashes = open - 2;
    for i in open..s.len() {
        if s.as_bytes()[i] == b'"' && s.len() >= i + 1 + hashes && s.as_bytes()[i + 1..i + 1 + hashes].iter().all(|c| *c == b'#') {
            return Some(i + 1 + hashes);
        }
    }
    None
}
/// The escape is a backslash before a quote, and nothing else.
fn rust_string(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    if b.first() != Some(&b'"') {
        return None;
    }
    let mut at = 1;
    let mut last_escaped = None;
    while at < b.len() {
        if b[at] == b'\\' && b.get(at + 1) == Some(&b'"') {
            last_escaped = Some(at + 2);
            at += 2;
        } else if b[at] == b'"' {
            return Some(at + 1);
        } else {
            at += 1;
        }
    }
    last_escaped
}
fn rust_char(s: &str) -> Option<usize> {
    if s.starts_with("'\\''") {
        return Some(4);
    }
    let rest = s.strip_prefix('\'')?;
    let c = rest.chars().next()?;
    if c != '\'' && rest[c.len_utf8()..].starts_with('\'') {
        return Some(2 + c.len_utf8());
    }
    let n = span(rest, |c| word(c) || c == '\\' || c == '{' || c == '}');
    if rest[n..].starts_with('\'') { Some(n + 2) } else { None }
}
fn lifetime(s: &str) -> Option<usize> {
    Some(1 + span(s.strip_prefix('\'')?, word))
}
fn boolean(s: &str) -> Option<usize> {
    if s.starts_with("true") { Some(4) } else if s.starts_with("false") { Some(5) } else { None }
}
fn simple_string(s: &str) -> Option<usize> {
    let mut cs = s.char_indices();
    cs.next().filter(|c| c.1 == '\'')?;
    while let Some((i, c)) = cs.next() {
        match c {
            '\'' => return Some(i + 1),
            '\\' => {
                cs.next().filter(|c| c.1 != '\n')?;
            }
            _ => (),
        }
    }
    None
}
fn json_string(s: &str) -> Option<usize> {
    s.strip_prefix('"')?.find('"').map(|i| i + 2)
}
fn terminal(s: &str) -> Option<usize> {
    s.strip_prefix('\'')?.find('\'').filter(|i| *i > 0).map(|i| i + 2)
}

pub type Rules = Vec<(&'static str, M)>;

pub fn rules(lang: &str) -> Rules {
    match lang {
        "json" => vec![
            ("WHITESPACE", F(spaces)), ("LBRACE", L("{")), ("RBRACE", L("}")), ("LBRACK", L("[")), ("RBRACK", L("]")),
            ("COLON", L(":")), ("COMMA", L(",")), ("NULL", L("null")), ("BOOL", F(boolean)), ("STRING", F(json_string)),
            ("NUMBER", F(digits)),
        ],
        "bnf" => vec![
            ("WHITESPACE", F(spaces)), ("ARROW", L("->")), ("PIPE", L("|")), ("TERMINAL", F(terminal)), ("NONTERMINAL", F(words)),
        ],
        "arith" => vec![
            ("WHITESPACE", F(spaces)), ("NUMBER", F(digits)), ("PLUS", L("+")), ("MINUS", L("-")), ("STAR", L("*")),
            ("SLASH", L("/")), ("BANG", L("!")), ("LPAREN", L("(")), ("RPAREN", L(")")),
        ],
        "sexp" => vec![("WHITESPACE", F(spaces)), ("LPAREN", L("(")), ("RPAREN", L(")")), ("ATOM", F(words))],
        "fall" => vec![
            ("WHITESPACE", F(spaces)), ("EOL_COMMENT", F(comment)), ("EQ", L("=")), ("PIPE", L("|")), ("STAR", L("*")),
            ("QUESTION", L("?")), ("DOT", L(".")), ("COMMA", L(",")), ("COLON", L(":")), ("HASH", L("#")), ("L_CURLY", L("{")),
            ("R_CURLY", L("}")), ("L_SQUARE", L("[")), ("R_SQUARE", L("]")), ("L_ANGLE", L("<")), ("R_ANGLE", L(">")),
            ("L_PAREN", L("(")), ("R_PAREN", L(")")), ("NUMBER", F(digits)), ("SIMPLE_STRING", F(simple_string)),
            ("HASH_STRING", X(open_raw, raw_string)), ("IDENT", F(words)),
        ],
        "rust" => vec![
            ("WHITESPACE", F(spaces)), ("LINE_COMMENT", F(comment_nl)), ("BLOCK_COMMENT", X(open_comment, block_comment)),
            ("AS", L("as")), ("CRATE", L("crate")), ("EXTERN", L("extern")), ("FN", L("fn")), ("LET", L("let")),
            ("PUB", L("pub")), ("STRUCT", L("struct")), ("USE", L("use")), ("MOD", L("mod")), ("IF", L("if")),
            ("ELSE", L("else")), ("ENUM", L("enum")), ("IMPL", L("impl")), ("SELF", L("self")), ("SUPER", L("super")),
            ("TYPE", L("type")), ("CONST", L("const")), ("STATIC", L("static")), ("FOR", L("for")), ("LOOP", L("loop")),
            ("WHILE", L("while")), ("MOVE", L("move")), ("MUT", L("mut")), ("REF", L("ref")), ("TRAIT", L("trait")),
            ("MATCH", L("match")), ("RETURN", L("return")), ("CONTINUE", L("continue")), ("BREAK", L("break")),
            ("IN", L("in")), ("UNSAFE", L("unsafe")), ("WHERE", L("where")), ("L_PAREN", L("(")), ("R_PAREN", L(")")),
            ("L_CURLY", L("{")), ("R_CURLY", L("}")), ("L_ANGLE", L("<")), ("R_ANGLE", L(">")), ("L_BRACK", L("[")),
            ("R_BRACK", L("]")), ("THIN_ARROW", L("->")), ("FAT_ARROW", L("=>")), ("EQ", L("=")), ("EQEQ", L("==")),
            ("BANGEQ", L("!=")), ("GTET", L(">=")), ("LTEQ", L("<=")), ("SEMI", L(";")), ("COLON", L(":")),
            ("COLONCOLON", L("::")), ("COMMA", L(",")), ("DOT", L(".")), ("DOTDOT", L("..")), ("DOTDOTDOT", L("...")),
            ("HASH", L("#")), ("DOLLAR", L("$")), ("STAR", L("*")), ("STAR_EQ", L("*=")), ("SLASH", L("/")),
            ("SLASH_EQ", L("/=")), ("PERCENT", L("%")), ("PERCENT_EQ", L("%=")), ("PLUS", L("+")), ("PLUS_EQ", L("+=")),
            ("MINUS", L("-")), ("MINUS_EQ", L("-=")), ("AMPERSAND", L("&")), ("AMPERSAND_EQ", L("&=")), ("PIPE", L("|")),
            ("PIPE_EQ", L("|=")), ("UNDERSCORE", L("_")), ("BANG", L("!")), ("QUESTION", L("?")), ("CARET", L("^")),
            ("CARET_EQ", L("^=")), ("CHAR", F(rust_char)), ("LIFETIME", F(lifetime)), ("BOOL", F(boolean)),
            ("NUMBER", F(digits)), ("STRING", F(rust_string)), ("RAW_STRING", X(open_raw, raw_string)), ("IDENT", F(ident)),
        ],
        _ => Vec::new(),
    }
}

/// The token at the start of a text.
fn token(rules: &Rules, s: &str) -> Option<(&'static str, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for (i, r) in rules.iter().enumerate() {
        let l = match r.1 {
            L(t) => if s.starts_with(t) { Some(t.len()) } else { None },
            F(f) => f(s),
            X(f, _) => f(s),
        };
        if let Some(l) = l {
            if best.map_or(true, |(_, b)| l > b) {
                best = Some((i, l));
            }
        }
    }
    let (i, l) = best?;
    match rules[i].1 {
        X(_, f) => f(s).map(|l| (rules[i].0, l)),
        _ => Some((rules[i].0, l)),
    }
}

pub fn tokens(rules: &Rules, text: &str) -> Vec<(&'static str, usize, usize)> {
    let mut res: Vec<(&'static str, usize, usize)> = Vec::new();
    let mut at = 0;
    while at < text.len() {
        let (name, l) = match token(rules, &text[at..]) {
            Some(t) => t,
            None => {
                let l = text[at..].chars().next().unwrap().len_utf8();
                if let Some(last) = res.last_mut() {
                    if last.0 == "ERROR" {
                        last.2 += l;
                        at += l;
                        continue;
                    }
                }
                ("ERROR", l)
            }
        };
        res.push((name, at, l));
        at += l;
    }
    res
}

/// Every leaf is one token of its type, or a contextual token made of several.
pub fn check(file: &File, text: &str, rules: &Rules) -> Result<u64, String> {
    let want = tokens(rules, text);
    let mut leaves = Vec::new();
    crate::c10::raw(file.root(), &mut leaves);
    let mut names = HashMap::new();
    let mut next = 0;
    for (ty, start, len) in leaves {
        if len == 0 {
            continue;
        }
        let name = *names.entry(ty).or_insert_with(|| file.language().node_type_info(NodeType(ty)).name);
        let (start, end) = (start as usize, (start + len) as usize);
        let first = next;
        let mut at = start;
        while at < end {
            match want.get(next) {
                Some(&(_, s, l)) if s == at && s + l <= end => {
                    at += l;
                    next += 1;
                }
                _ => return Err(format!("leaf {} {}..{} is not made of tokens of {:?}", name, start, end, want)),
            }
        }
        let declared = name == "ERROR" || rules.iter().any(|r| r.0 == name);
        if declared && (next != first + 1 || want[first].0 != name) {
            return Err(format!("leaf {} {}..{} is not a token of {:?}", name, start, end, want));
        }
    }
    if next != want.len() {
        return Err(format!("tokens without leaves: {:?}", &want[next..]));
    }
    Ok(spec::flatten_file(file, &|_| true).iter().fold(1, |h, &x| mccore::util::fnv_mix(h, x)))
}
