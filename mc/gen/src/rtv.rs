//! What compiled views are called with.

pub use fall_tree::{AstNode, File, Node, Text};

pub fn at(n: Node) -> String {
    let r = n.range();
    format!("{}..{}", r.start().utf8_len(), r.end().utf8_len())
}

pub fn nodes<'f>(file: &'f File) -> Vec<Node<'f>> {
    fn add<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) {
        out.push(n);
        for c in n.children() {
            add(c, out);
        }
    }
    let mut v = Vec::new();
    add(file.root(), &mut v);
    v
}

/// Calls an accessor, which gives up if there is nothing.
pub fn call<F: FnOnce() -> Vec<String>>(out: &mut Vec<String>, name: &str, f: F) {
    let v = mccore::guarded(|| Ok(f())).unwrap_or_else(|_| vec!["missing".to_owned()]);
    out.push(format!("  {} {:?}", name, v));
}
