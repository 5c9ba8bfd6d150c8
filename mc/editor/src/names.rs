//! What names in a grammar mean, read off the plain tree.

use std::collections::BTreeMap;

use mcparse::tree::M;

pub struct Names<'a, 'f> {
    pub m: &'a M<'f>,
    pub rules: Vec<usize>,
    pub tokens: Vec<usize>,
    pub nodes: Vec<usize>,
    pub classes: Vec<usize>,
    pub traits: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target {
    Param(usize),
    Rule(usize),
    Token(usize),
    Node(usize),
    Class(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Builtin,
    Rule(usize),
    Unknown,
}

pub const EXPRS: [&str; 6] = ["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"];

/// Severity is 0 for errors, 1 for warnings.
pub type Diag = (u32, usize, usize, String);

impl<'a, 'f> Names<'a, 'f> {
    pub fn new(m: &'a M<'f>) -> Names<'a, 'f> {
        let rules = m.kids(0, "SYN_RULE").collect();
        let tokens = m.kid(0, "TOKENIZER_DEF").map_or(Vec::new(), |t| m.kids(t, "LEX_RULE").collect());
        let ast = m.kid(0, "AST_DEF");
        let part = |name| ast.map_or(Vec::new(), |a| m.kids(a, name).collect());
        Names {
            m,
            rules,
            tokens,
            nodes: part("AST_NODE_DEF"),
            classes: part("AST_CLASS_DEF"),
            traits: part("AST_TRAIT_DEF"),
        }
    }

    pub fn ident(&self, i: usize) -> Option<&str> {
        self.m.kid(i, "IDENT").map(|k| self.m.text_of(k))
    }

    pub fn exprs(&self, i: usize) -> Vec<usize> {
        self.m.nodes[i].children.iter().cloned().filter(|&k| EXPRS.contains(&self.m.name(k))).collect()
    }

    /// The name by which rules refer to a token.
    fn token_name(&self, i: usize) -> Option<&str> {
        match self.m.kid(i, "STRING") {
            Some(s) if self.m.text_of(s).starts_with('\'') => Some(self.m.text_of(s)),
            _ => self.ident(i),
        }
    }

    pub fn params(&self, rule: usize) -> Vec<usize> {
        self.m.kid(rule, "PARAMETERS").map_or(Vec::new(), |p| self.m.kids(p, "PARAMETER").collect())
    }

    fn rule_named(&self, name: &str) -> Option<usize> {
        self.rules.iter().cloned().find(|&r| self.ident(r) == Some(name))
    }

    pub fn ref_name(&self, r: usize) -> &str {
        let k = self.m.kid(r, "IDENT").or_else(|| self.m.kid(r, "SIMPLE_STRING"));
        k.map_or("", |k| self.m.text_of(k))
    }

    /// Possible targets: several only for a token declared repeatedly.
    pub fn resolve_ref(&self, r: usize) -> Vec<Target> {
        let name = self.ref_name(r);
        if let Some(rule) = self.m.enclosing(r, "SYN_RULE") {
            if let Some(p) = self.params(rule).into_iter().find(|&p| self.ident(p) == Some(name)) {
                return vec![Target::Param(p)];
            }
        }
        if let Some(r) = self.rule_named(name) {
            return vec![Target::Rule(r)];
        }
        self.tokens.iter().cloned().filter(|&t| self.token_name(t) == Some(name)).map(Target::Token).collect()
    }

    pub fn resolve_call(&self, c: usize) -> Call {
        let name = self.ident(c).unwrap_or("");
        match name {
            "any" | "commit" | "eof" | "not" | "is_in" | "layer" | "with_skip" | "inject" | "enter" | "exit" | "prev_is" => Call::Builtin,
            _ => match self.rule_named(name) {
                Some(r) if self.m.kid(r, "PARAMETERS").is_some() => Call::Rule(r),
                _ => Call::Unknown,
            },
        }
    }

    /// What the selector of a method stands for, tokens by name of their type,
    /// and whether it asks for the text only.
    pub fn resolve_method(&self, method: usize) -> Option<(Target, bool)> {
        let s = self.m.kid(method, "AST_SELECTOR")?;
        let name = self.ident(s)?;
        let named = |v: &[usize]| v.iter().cloned().find(|&d| self.ident(d) == Some(name));
        let text = self.m.kid(s, "DOT").is_some();
        if self.m.kid(0, "AST_DEF").is_none() {
            return None;
        }
        let t = if let Some(n) = named(&self.nodes) {
            Target::Node(n)
        } else if let Some(c) = named(&self.classes) {
            Target::Class(c)
        } else {
            Target::Token(named(&self.tokens)?)
        };
        match t {
            Target::Token(_) => Some((t, text)),
            _ if text => None,
            _ => Some((t, false)),
        }
    }

    pub fn context(&self, call: usize) -> Option<&str> {
        if !["is_in", "enter", "exit"].contains(&self.ident(call).unwrap_or("")) {
            return None;
        }
        let arg = *self.exprs(call).first()?;
        self.m.kid(arg, "SIMPLE_STRING").map(|s| self.m.text_of(s).trim_matches('\''))
    }

    /// The value of an attribute, if it is there.
    pub fn attribute(&self, i: usize, name: &str) -> Option<Option<&str>> {
        self.attributes(i).into_iter().find(|a| a.0 == name).map(|a| a.1)
    }

    /// Attributes of a rule with their values.
    fn attributes(&self, rule: usize) -> Vec<(&str, Option<&str>)> {
        let a = match self.m.kid(rule, "ATTRIBUTES") {
            Some(a) => a,
            None => return Vec::new(),
        };
        self.m
            .kids(a, "ATTRIBUTE")
            .map(|k| (self.ident(k).unwrap_or(""), self.m.kid(k, "ATTRIBUTE_VALUE").map(|v| self.m.text_of(v))))
            .collect()
    }

    /// Rules that have a node type: not those of operator expressions.
    fn has_type(&self, rule: usize) -> bool {
        let attrs = self.attributes(rule);
        if self.m.kid(rule, "PUB").is_none() || attrs.iter().any(|a| a.0 == "pratt") {
            return false;
        }
        match attrs.iter().find(|a| a.0 == "type") {
            Some(a) => a.1.is_some(),
            None => self.ident(rule).is_some(),
        }
    }

    pub fn diagnostics(&self) -> Vec<Diag> {
        let m = self.m;
        let mut res: Vec<Diag> = Vec::new();
        let mut push = |sev, i: usize, msg: String| res.push((sev, m.nodes[i].start, m.nodes[i].end, msg));
        let mut contexts: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
        let mut used: Vec<usize> = self.rules.first().cloned().into_iter().collect();
        for i in m.all() {
            match m.name(i) {
                "REF_EXPR" => {
                    let targets = self.resolve_ref(i);
                    if let Some(Target::Rule(r)) = targets.first() {
                        used.push(*r);
                    }
                    let p = m.nodes[i].parent.unwrap();
                    let is_context = m.name(p) == "CALL_EXPR" && self.context(p).is_some() && self.exprs(p)[0] == i;
                    if targets.is_empty() && !is_context {
                        push(0, i, "Unresolved reference".to_owned());
                    }
                }
                "CALL_EXPR" => {
                    if let Some(c) = self.context(i) {
                        contexts.entry(c).or_default().push(i);
                    }
                    let args = self.exprs(i);
                    match self.resolve_call(i) {
                        Call::Builtin => {
                            let name = self.ident(i).unwrap();
                            let want = match name {
                                "any" | "commit" | "eof" => Some(0),
                                "not" | "is_in" => Some(1),
                                "layer" | "with_skip" | "inject" | "enter" | "exit" => Some(2),
                                _ => None,
                            };
                            if let Some(want) = want {
                                if want != args.len() {
                                    push(0, i, format!("Wrong number of arguments, expected {}, got {}", want, args.len()));
                                }
                                let takes_context = name == "is_in" || name == "enter" || name == "exit";
                                if takes_context && args.len() >= want && self.context(i).is_none() {
                                    push(0, args[0], "Context should be a single quoted string".to_owned());
                                }
                            } else {
                                for &a in &args {
                                    let ok = m.name(a) == "REF_EXPR"
                                        && match self.resolve_ref(a).first() {
                                            Some(Target::Rule(r)) => self.has_type(*r),
                                            _ => false,
                                        };
                                    if !ok {
                                        push(0, i, "<prev_is> arguments must be public rules".to_owned());
                                    }
                                }
                            }
                        }
                        Call::Rule(r) => {
                            used.push(r);
                            let n = self.params(r).len();
                            if n != args.len() {
                                push(0, i, format!("Expected {} arguments, got {}", n, args.len()));
                            }
                        }
                        Call::Unknown => {
                            if let Some(k) = m.kid(i, "IDENT") {
                                push(0, k, "Unresolved reference".to_owned());
                            }
                        }
                    }
                }
                "SYN_RULE" => self.operator(i, &mut push),
                "AST_NODE_DEF" => {
                    let kids = &m.nodes[i].children;
                    let colon = kids.iter().position(|&k| m.name(k) == "COLON").unwrap_or(kids.len());
                    for &k in &kids[colon..] {
                        if m.name(k) == "IDENT" && !self.traits.iter().any(|&t| self.ident(t) == Some(m.text_of(k))) {
                            push(0, k, "Unresolved trait".to_owned());
                        }
                    }
                }
                _ => {}
            }
        }
        for (k, &r) in self.rules.iter().enumerate() {
            if let Some(name) = self.ident(r) {
                if self.rules[..k].iter().any(|&o| self.ident(o) == Some(name)) {
                    push(0, m.kid(r, "IDENT").unwrap(), "Duplicate rule".to_owned());
                }
                if !used.contains(&r) {
                    push(1, m.kid(r, "IDENT").unwrap(), "Unused rule".to_owned());
                }
            }
        }
        for (k, &t) in self.tokens.iter().enumerate() {
            if self.tokens[..k].iter().any(|&o| self.ident(o) == self.ident(t)) {
                push(0, t, "Duplicate token".to_owned());
            }
        }
        for (name, calls) in contexts {
            if calls.len() == 1 {
                push(1, calls[0], format!("Context `{}` is used only once", name));
            }
        }
        res.sort();
        res
    }

    /// Rules of operator expressions.
    fn operator(&self, rule: usize, push: &mut dyn FnMut(u32, usize, String)) {
        let m = self.m;
        let name = match m.kid(rule, "IDENT") {
            Some(n) => n,
            None => return,
        };
        let attrs = self.attributes(rule);
        let (kind, value) = match ["atom", "postfix", "prefix", "bin"].iter().filter_map(|&k| attrs.iter().find(|a| a.0 == k)).next() {
            Some(&a) => a,
            None => return,
        };
        let priority: Option<u32> = value.and_then(|v| v.parse().ok());
        if kind == "atom" {
            if priority.is_some() {
                push(0, name, "Atom rules don't have priority".to_owned());
            }
            return;
        }
        let body = match self.exprs(rule).first() {
            Some(&b) if m.name(b) == "BLOCK_EXPR" => b,
            _ => return,
        };
        let alts = self.exprs(body);
        if alts.len() != 1 {
            push(0, body, "Expression rule requires a single alternative".to_owned());
            return;
        }
        if m.name(alts[0]) != "SEQ_EXPR" {
            return;
        }
        let n = self.exprs(alts[0]).len();
        match kind {
            "postfix" if n != 2 => push(0, body, "Postfix rule requires a single expression and an operation".to_owned()),
            "prefix" if n != 2 => push(0, body, "Prefix rule requires an operation and a single expression".to_owned()),
            "bin" if n != 3 => push(
                0,
                body,
                "Binary expression requires a left hand side expression, an operator and a right hand side expression".to_owned(),
            ),
            "bin" if priority.is_none() => push(0, name, "Binary expression requires explicit priority".to_owned()),
            _ => {}
        }
    }

    /// References with their possible targets: those that can be navigated.
    pub fn references(&self) -> Vec<(usize, Vec<Target>)> {
        self.m.all().filter_map(|i| self.reference(i)).collect()
    }

    /// The node of the reference and what it refers to.
    fn reference(&self, i: usize) -> Option<(usize, Vec<Target>)> {
        match self.m.name(i) {
            "REF_EXPR" => Some((i, self.resolve_ref(i))),
            "METHOD_DEF" => Some((
                self.m.kid(i, "AST_SELECTOR")?,
                match self.resolve_method(i) {
                    Some((t, false)) => vec![t],
                    _ => Vec::new(),
                },
            )),
            "IDENT" => {
                let p = self.m.nodes[i].parent?;
                if self.m.name(p) != "CALL_EXPR" {
                    return None;
                }
                match self.resolve_call(p) {
                    Call::Rule(r) => Some((i, vec![Target::Rule(r)])),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Where navigation to a target ends up.
    pub fn place(&self, t: Target) -> (usize, usize) {
        let m = self.m;
        match t {
            Target::Param(i) | Target::Token(i) => m.range(i),
            Target::Rule(i) | Target::Node(i) | Target::Class(i) => m.range(m.kid(i, "IDENT").unwrap_or(i)),
        }
    }

    fn declaration(&self, i: usize) -> Option<Target> {
        match self.m.name(i) {
            "SYN_RULE" => Some(Target::Rule(i)),
            "LEX_RULE" => Some(Target::Token(i)),
            "PARAMETER" => Some(Target::Param(i)),
            "AST_NODE_DEF" => Some(Target::Node(i)),
            "AST_CLASS_DEF" => Some(Target::Class(i)),
            _ => None,
        }
    }

    /// Tokens at the cursor; whitespace only if there is nothing else.
    fn cursor(&self, o: usize) -> Vec<usize> {
        let leaves = self.m.leaves_at(0, o);
        let tokens: Vec<usize> = leaves.iter().cloned().filter(|&l| !self.m.skipped(l)).collect();
        if tokens.is_empty() {
            leaves
        } else {
            tokens
        }
    }

    /// Acceptable answers to "go to definition".
    pub fn definitions_at(&self, o: usize) -> Vec<Option<(usize, usize)>> {
        let mut res = Vec::new();
        for l in self.cursor(o) {
            match self.m.ancestors(l).into_iter().filter_map(|a| self.reference(a)).next() {
                None => res.push(None),
                Some((_, targets)) => {
                    if targets.is_empty() {
                        res.push(None);
                    }
                    res.extend(targets.iter().map(|&t| Some(self.place(t))));
                }
            }
        }
        if res.is_empty() {
            res.push(None);
        }
        res
    }

    /// Acceptable answers to "find usages".
    pub fn usages_at(&self, o: usize) -> Vec<Vec<(usize, usize)>> {
        let refs = self.references();
        let mut res = Vec::new();
        for l in self.cursor(o) {
            let mut found: Vec<Target> = Vec::new();
            for a in self.m.ancestors(l) {
                if let Some(d) = self.declaration(a) {
                    let (s, e) = self.place(d);
                    if s <= o && o <= e {
                        found = vec![d];
                        break;
                    }
                }
                if let Some((_, t)) = self.reference(a) {
                    if !t.is_empty() {
                        found = t;
                        break;
                    }
                }
            }
            if found.is_empty() {
                res.push(Vec::new());
            }
            for t in found {
                let all = |keep: &dyn Fn(&[Target]) -> bool| -> Vec<(usize, usize)> {
                    refs.iter().filter(|r| keep(&r.1)).map(|r| self.m.range(r.0)).collect()
                };
                res.push(all(&|ts: &[Target]| ts == [t]));
                if refs.iter().any(|r| r.1.len() > 1 && r.1.contains(&t)) {
                    res.push(all(&|ts: &[Target]| ts.contains(&t)));
                }
            }
        }
        if res.is_empty() {
            res.push(Vec::new());
        }
        res
    }
}
