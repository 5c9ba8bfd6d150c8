//! Questions to the analysis of a grammar, and their answers as text.

use fall_editor::{EditorFileImpl, Severity};
use fall_tree::search::ast::descendants_of_type;
use fall_tree::{tu, AstNode, Node, TextRange};
use lang_fall::syntax::{AstNodeDef, CallExpr, Expr, MethodDef, RefExpr, SynRule};
use lang_fall::{Analysis, Arity, CallKind, ChildKind, FileWithAnalysis, MethodKind, PratVariant, RefKind};

use crate::sched::quiet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Ref(usize),
    Call(usize),
    Pratt(usize),
    Method(usize),
    Traits(usize),
    Diagnostics,
    Highlight,
    Definition(usize),
    Usages(usize),
}

pub fn all(file: &FileWithAnalysis, text: &str) -> Vec<Op> {
    let root = file.file().root();
    let mut res = vec![Op::Diagnostics, Op::Highlight];
    res.extend((0..descendants_of_type::<RefExpr>(root).len()).map(Op::Ref));
    res.extend((0..descendants_of_type::<CallExpr>(root).len()).map(Op::Call));
    res.extend((0..descendants_of_type::<SynRule>(root).len()).map(Op::Pratt));
    res.extend((0..descendants_of_type::<MethodDef>(root).len()).map(Op::Method));
    res.extend((0..descendants_of_type::<AstNodeDef>(root).len()).map(Op::Traits));
    let mut start = true;
    for (i, c) in text.char_indices() {
        let word = c.is_alphanumeric() || c == '_';
        if word && start {
            res.push(Op::Definition(i));
            res.push(Op::Usages(i));
        }
        start = !word;
    }
    res
}

/// One of each kind, and those of a kind that differ in their answers.
pub fn representatives(file: &FileWithAnalysis, text: &str) -> Vec<Op> {
    let mut seen = Vec::new();
    let mut res = Vec::new();
    for op in all(file, text) {
        let key = match op {
            Op::Ref(_) => 0,
            Op::Call(_) => 1,
            Op::Pratt(_) => 2,
            Op::Method(_) => 3,
            Op::Traits(_) => 4,
            Op::Diagnostics => 5,
            Op::Highlight => 6,
            Op::Definition(_) => 7,
            Op::Usages(_) => 8,
        };
        let before = diagnostics_of(text, None);
        let shape = (key, diagnostics_of(text, Some(op)), before);
        if !seen.contains(&shape) {
            seen.push(shape);
            res.push(op);
        }
    }
    res
}

/// How much the answer says, apart from places.
fn diagnostics_of(text: &str, op: Option<Op>) -> String {
    let file = FileWithAnalysis::parse(text);
    match op {
        None => String::new(),
        Some(op) => ask(&file, op).chars().filter(|c| !c.is_ascii_digit()).collect(),
    }
}

fn at(n: Node) -> String {
    format!("{:?}", n.range())
}

fn expr(e: Expr) -> String {
    at(e.node())
}

fn pratt(v: PratVariant) -> String {
    let op = |o: lang_fall::PrattOp| format!("{} priority {}", expr(o.op), o.priority);
    match v {
        PratVariant::Atom(e) => format!("atom {}", expr(e)),
        PratVariant::Bin(o) => format!("bin {}", op(o)),
        PratVariant::Postfix(o) => format!("postfix {}", op(o)),
        PratVariant::Prefix(o) => format!("prefix {}", op(o)),
    }
}

fn method(m: MethodKind) -> String {
    let arity = |a: Arity| match a {
        Arity::Single => "single",
        Arity::Optional => "optional",
        Arity::Many => "many",
    };
    match m {
        MethodKind::NodeAccessor(k, a) => {
            let k = match k {
                ChildKind::AstNode(n) => format!("node {}", at(n.node())),
                ChildKind::AstClass(n) => format!("class {}", at(n.node())),
                ChildKind::Token(n) => format!("token {}", at(n.node())),
            };
            format!("{} {}", arity(a), k)
        }
        MethodKind::TextAccessor(l, a) => format!("{} text {}", arity(a), at(l.node())),
    }
}

fn call(k: CallKind) -> String {
    match k {
        CallKind::RuleCall(r, args) => {
            let args: Vec<_> = args.iter().map(|(p, e)| at(p.node()) + &expr(*e)).collect();
            format!("rule {} {:?}", at(r.node()), args)
        }
        CallKind::PrevIs(rs) => format!("prev {:?}", rs.iter().map(|r| at(r.node())).collect::<Vec<_>>()),
        k => format!("{:?}", k),
    }
}

fn ranges(r: Vec<TextRange>) -> String {
    format!("{:?}", r)
}

pub fn diagnostics(file: &FileWithAnalysis) -> Vec<String> {
    file.diagnostics()
        .into_iter()
        .map(|d| {
            let s = match d.severity {
                Severity::Error => 'E',
                Severity::Warning => 'W',
            };
            format!("{} {:?} {}", s, d.range, d.message)
        })
        .collect()
}

fn on<R, F: FnOnce(&Analysis) -> R>(file: &FileWithAnalysis, f: F) -> R {
    file.analyse(f)
}

pub fn ask(file: &FileWithAnalysis, op: Op) -> String {
    macro_rules! nth {
        ($a:expr, $ty:ty, $i:expr) => {
            quiet(|| descendants_of_type::<$ty>($a.ast().node())[$i])
        };
    }
    match op {
        Op::Diagnostics => format!("{:?}", diagnostics(file)),
        Op::Highlight => format!("{:?}", file.highlight().into_iter().map(|(r, t)| (r, t.0)).collect::<Vec<_>>()),
        Op::Definition(o) => format!("{:?}", file.resolve_reference(tu(o as u32))),
        Op::Usages(o) => ranges(file.find_usages(tu(o as u32))),
        Op::Ref(i) => on(file, |a| match a.resolve_reference(nth!(a, RefExpr, i)) {
            None => "none".to_owned(),
            Some(RefKind::Token(l)) => format!("token {}", at(l.node())),
            Some(RefKind::RuleReference(r)) => format!("rule {}", at(r.node())),
            Some(RefKind::Param(p)) => format!("parameter {}", at(p.node())),
        }),
        Op::Call(i) => on(file, |a| a.resolve_call(nth!(a, CallExpr, i)).map_or("none".to_owned(), call)),
        Op::Pratt(i) => on(file, |a| a.resolve_pratt_variant(nth!(a, SynRule, i)).map_or("none".to_owned(), pratt)),
        Op::Method(i) => on(file, |a| a.resolve_method(nth!(a, MethodDef, i)).map_or("none".to_owned(), method)),
        Op::Traits(i) => on(file, |a| {
            let t = a.ast_node_traits(nth!(a, AstNodeDef, i));
            format!("{:?}", t.iter().map(|t| at(t.node())).collect::<Vec<_>>())
        }),
    }
}
