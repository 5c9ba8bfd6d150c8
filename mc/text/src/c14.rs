//! Tree queries agree with the tree they query.

use std::sync::Arc;

use fall_tree::search::{self, Direction, LeafAtOffset};
use fall_tree::visitor::{process_node, process_subtree_bottom_up, visitor};
use fall_tree::{dump_file, dump_file_ws, tu, walk_tree, AstChildren, AstNode, File, Node, NodeType};
use mccore::util::{fnv, fnv_mix};
use mccore::{guarded, Family, Tier};

use crate::c11::range;
use mcparse::stretch::sizes;
use crate::model::{self, Source, M};

/// A typed wrapper for nodes of one type.
#[derive(Clone, Copy)]
struct Ast<'f, const T: u32>(Node<'f>);

impl<'f, const T: u32> AstNode<'f> for Ast<'f, T> {
    fn wrap(node: Node<'f>) -> Option<Self> {
        if node.ty().0 == T { Some(Ast(node)) } else { None }
    }
    fn node(self) -> Node<'f> {
        self.0
    }
}

struct Q<'a, 'f> {
    m: &'a M<'f>,
}

fn at(m: &M, i: usize) -> String {
    let n = &m.nodes[i];
    format!("{:?}#{}[{}; {})", n.node, i, n.start, n.end)
}

impl<'a, 'f> Q<'a, 'f> {
    fn id(&self, n: Node<'f>) -> String {
        match self.m.nodes.iter().position(|x| x.node == n) {
            Some(i) => at(self.m, i),
            None => "a foreign node".to_owned(),
        }
    }
    fn list<I: IntoIterator<Item = Node<'f>>>(&self, what: &str, got: I, want: &[usize]) -> Result<(), String> {
        let got: Vec<Node<'f>> = got.into_iter().collect();
        let same = got.len() == want.len() && got.iter().zip(want).all(|(g, &w)| *g == self.m.nodes[w].node);
        if same {
            return Ok(());
        }
        Err(format!(
            "{}: expected {:?}, got {:?}",
            what,
            want.iter().map(|&w| at(self.m, w)).collect::<Vec<_>>(),
            got.into_iter().map(|g| self.id(g)).collect::<Vec<_>>()
        ))
    }
    fn opt(&self, what: &str, got: Option<Node<'f>>, want: Option<usize>) -> Result<(), String> {
        self.list(what, got, &want.into_iter().collect::<Vec<_>>())
    }

    /// Queries about positions, in the subtree of `i`.
    fn positions(&self, i: usize) -> Result<u64, String> {
        let m = self.m;
        let n = &m.nodes[i];
        let mut h = 0;
        for off in n.start..=n.end {
            let what = format!("leaf at {} of {}", off, at(m, i));
            let want = m.leaves_at(i, off);
            let got = guarded(|| Ok(search::find_leaf_at_offset(n.node, tu(off as u32)))).map_err(|e| format!("{}: {}", what, e))?;
            let kind = match got {
                LeafAtOffset::None => 0,
                LeafAtOffset::Single(_) => 1,
                LeafAtOffset::Between(..) => 2,
            };
            if kind != want.len() {
                return Err(format!("{}: expected {} leaves, got {:?}", what, want.len(), got));
            }
            self.list(&what, got, &want)?;
            self.opt(&format!("right-biased {}", what), got.right_biased(), want.last().cloned())?;
            self.opt(&format!("left-biased {}", what), got.left_biased(), want.first().cloned())?;
            h = fnv_mix(h, kind as u64);
        }
        for s in n.start..=n.end {
            for e in s..=n.end {
                let what = format!("node covering [{}; {}) of {}", s, e, at(m, i));
                let got = guarded(|| Ok(search::find_covering_node(n.node, range(s, e)))).map_err(|e| format!("{}: {}", what, e))?;
                self.list(&what, Some(got), &[m.covering(i, s, e)])?;
            }
        }
        Ok(h)
    }

    /// Queries about relatives of node `i`.
    fn relatives(&self, i: usize, types: &[u32]) -> Result<u64, String> {
        let m = self.m;
        let n = &m.nodes[i];
        let node = n.node;
        let w = |what: &str| format!("{} of {}", what, at(m, i));
        self.list(&w("ancestors"), search::ancestors(node), &m.ancestors(i))?;
        let sib = |d: i64| {
            n.parent.and_then(|p| {
                let c = &m.nodes[p].children;
                let k = c.iter().position(|&x| x == i).unwrap() as i64 + d;
                if k < 0 { None } else { c.get(k as usize).cloned() }
            })
        };
        self.opt(&w("left sibling"), search::sibling(node, Direction::Left), sib(-1))?;
        self.opt(&w("right sibling"), search::sibling(node, Direction::Right), sib(1))?;
        let mut post = Vec::new();
        m.postorder(i, &mut post);
        let pre: Vec<usize> = (i..n.last).collect();
        self.list(&w("subtree"), search::subtree(node), &post)?;
        let mut got = Vec::new();
        search::traversal::bottom_up(node, |n| got.push(n));
        self.list(&w("bottom-up traversal"), got, &post)?;
        let mut got = Vec::new();
        let mut types_seen = Vec::new();
        walk_tree(node, |n| {
            types_seen.push(n.ty().0);
            got.push(n.range());
        });
        let want: Vec<_> = pre.iter().map(|&k| range(m.nodes[k].start, m.nodes[k].end)).collect();
        if got != want || types_seen != pre.iter().map(|&k| m.nodes[k].ty).collect::<Vec<_>>() {
            return Err(format!("{}: expected {:?}, got {:?}", w("walk"), want, got));
        }
        if search::is_leaf(node) != m.is_leaf(i) {
            return Err(format!("{}: {}", w("is_leaf"), search::is_leaf(node)));
        }
        if node.parent() != n.parent.map(|p| m.nodes[p].node) {
            return Err(w("parent"));
        }
        self.list(&w("children"), node.children(), &n.children)?;
        for &t in types {
            let ty = NodeType(t);
            let w = |what: &str| format!("{} of type {} of {}", what, t, at(m, i));
            let kids: Vec<usize> = n.children.iter().cloned().filter(|&c| m.nodes[c].ty == t).collect();
            self.opt(&w("child"), search::child_of_type(node, ty), kids.first().cloned())?;
            self.list(&w("children"), search::children_of_type(node, ty), &kids)?;
            match guarded(|| Ok(search::child_of_type_exn(node, ty))) {
                Ok(c) => self.list(&w("required child"), Some(c), &kids[..kids.len().min(1)])?,
                Err(e) => {
                    if !kids.is_empty() {
                        return Err(format!("{}: {}", w("required child"), e));
                    }
                }
            }
            let desc: Vec<usize> = post.iter().cloned().filter(|&c| m.nodes[c].ty == t).collect();
            self.list(&w("descendants"), search::descendants_of_type(node, ty), &desc)?;
            let got = process_node(node, visitor(Vec::new()).visit_nodes(&[ty], |n, v: &mut Vec<Node<'f>>| v.push(n)));
            self.list(&w("visited node"), got, if n.ty == t { &pre[..1] } else { &[] })?;
        }
        Ok(post.len() as u64)
    }

    fn typed<A: AstNode<'f>>(&self, i: usize, t: &dyn Fn(u32) -> bool, text: bool) -> Result<(), String> {
        let m = self.m;
        let n = &m.nodes[i];
        let node = n.node;
        let w = |what: &str| format!("typed {} of {}", what, at(m, i));
        let is = |k: &usize| t(m.nodes[*k].ty);
        self.opt(&w("wrapper"), A::wrap(node).map(|a| a.node()), if t(n.ty) { Some(i) } else { None })?;
        let up = m.ancestors(i).into_iter().find(&is);
        self.opt(&w("ancestor"), search::ast::ancestor::<A>(node).map(|a| a.node()), up)?;
        if let Some(up) = up {
            self.list(&w("required ancestor"), Some(search::ast::ancestor_exn::<A>(node).node()), &[up])?;
        }
        let kids: Vec<usize> = n.children.iter().cloned().filter(&is).collect();
        self.list(&w("children"), search::ast::children_of_type::<A>(node).map(|a| a.node()), &kids)?;
        self.list(&w("AstChildren"), AstChildren::<A>::new(node.children()).map(|a| a.node()), &kids)?;
        let mut post = Vec::new();
        m.postorder(i, &mut post);
        post.retain(&is);
        let got = search::ast::descendants_of_type::<A>(node);
        self.list(&w("descendants"), got.into_iter().map(|a| a.node()), &post)?;
        if text {
            for off in n.start..=n.end {
                let want = m.leaves_at(i, off).into_iter().filter_map(|l| m.ancestors(l).into_iter().find(&is)).next();
                let got = search::ast::node_at_offset::<A>(node, tu(off as u32)).map(|a| a.node());
                self.opt(&w(&format!("node at {}", off)), got, want)?;
            }
        }
        Ok(())
    }

    /// Several visitors in one pass: all that apply are called, in the order
    /// in which they were added.
    fn visitors(&self, i: usize, t1: u32, t2: u32) -> Result<(), String> {
        let m = self.m;
        let types = [NodeType(t1), NodeType(t2)];
        let got = process_subtree_bottom_up(
            m.nodes[i].node,
            visitor(Vec::new())
                .visit_nodes(&types[..1], |n, v: &mut Vec<(u8, Node<'f>)>| v.push((0, n)))
                .visit::<Ast<{ mcparse::lang::N1 }>, _>(|n, v: &mut Vec<(u8, Node<'f>)>| v.push((1, n.node())))
                .visit_nodes(&types, |n, v: &mut Vec<(u8, Node<'f>)>| v.push((2, n))),
        );
        let mut post = Vec::new();
        m.postorder(i, &mut post);
        let mut want = Vec::new();
        for k in post {
            let n = &m.nodes[k];
            if n.ty == t1 {
                want.push((0, n.node));
            }
            if n.ty == mcparse::lang::N1 {
                want.push((1, n.node));
            }
            if n.ty == t1 || n.ty == t2 {
                want.push((2, n.node));
            }
        }
        if got != want {
            return Err(format!("visitors for {} and {} below {}: expected {:?}, got {:?}", t1, t2, at(m, i), want, got));
        }
        Ok(())
    }

    fn dumps(&self, file: &File) -> Result<(), String> {
        for &ws in &[true, false] {
            let mut want = String::new();
            let mut hidden_until = 0;
            for i in 0..self.m.nodes.len() {
                let n = &self.m.nodes[i];
                let info = file.language().node_type_info(NodeType(n.ty));
                if i < hidden_until {
                    continue;
                }
                if !ws && info.whitespace_like {
                    hidden_until = n.last;
                    continue;
                }
                want.push_str(&"  ".repeat(self.m.ancestors(i).len() - 1));
                want.push_str(info.name);
                if n.children.is_empty() {
                    want.push_str(&format!(" {:?}", &self.m.text[n.start..n.end]));
                }
                want.push('\n');
            }
            let got = if ws { dump_file_ws(file) } else { dump_file(file) };
            if got != want {
                return Err(format!("expected the dump\n{}got\n{}", want, got));
            }
        }
        Ok(())
    }
}

macro_rules! typed {
    ($q:expr, $i:expr, $text:expr; $($t:expr),*) => { $( $q.typed::<Ast<{ $t }>>($i, &|t| t == $t, $text)?; )* }
}

macro_rules! wrappers {
    ($q:expr, $i:expr, $file:expr; $($path:path, $($name:expr),+;)*) => {{
        $(
            let names: &[&str] = &[$($name),+];
            let lang = $file.language().clone();
            $q.typed::<$path>($i, &|t| names.contains(&lang.node_type_info(NodeType(t)).name), true)?;
        )*
    }};
}

fn judge(source: &Source, text: &str) -> Result<u64, String> {
    let file = (source.parse)(text);
    let m = M::new(&file);
    let q = Q { m: &m };
    let mut types: Vec<u32> = m.nodes.iter().map(|n| n.ty).collect();
    types.sort();
    types.dedup();
    let mut h = fnv(text.as_bytes());
    q.dumps(&file)?;
    for i in 0..m.nodes.len() {
        h = fnv_mix(h, q.positions(i)?);
        h = fnv_mix(h, q.relatives(i, &types)?);
        use mcparse::lang::*;
        match source.shipped.as_ref().map(|s| s.name) {
            None => {
                typed!(q, i, true; 0, A, WS, FILE, N1, N2, N3);
                for &t1 in &types {
                    q.visitors(i, t1, N1)?;
                    q.visitors(i, t1, 0)?;
                }
            }
            Some("fall") => {
                use lang_fall_syntax as l;
                wrappers!(q, i, &file;
                    l::FallFile, "FALL_FILE"; l::TokenizerDef, "TOKENIZER_DEF"; l::LexRule, "LEX_RULE";
                    l::SynRule, "SYN_RULE"; l::Parameters, "PARAMETERS"; l::Parameter, "PARAMETER";
                    l::Attributes, "ATTRIBUTES"; l::Attribute, "ATTRIBUTE"; l::VerbatimDef, "VERBATIM_DEF";
                    l::AstDef, "AST_DEF"; l::AstNodeDef, "AST_NODE_DEF"; l::AstTraitDef, "AST_TRAIT_DEF";
                    l::AstClassDef, "AST_CLASS_DEF"; l::MethodDef, "METHOD_DEF"; l::AstSelector, "AST_SELECTOR";
                    l::TestDef, "TEST_DEF"; l::RefExpr, "REF_EXPR"; l::CallExpr, "CALL_EXPR";
                    l::BlockExpr, "BLOCK_EXPR"; l::OptExpr, "OPT_EXPR"; l::RepExpr, "REP_EXPR"; l::SeqExpr, "SEQ_EXPR";
                    l::Expr, "REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR";
                );
            }
            Some("rust") => {
                use lang_rust_syntax as l;
                wrappers!(q, i, &file;
                    l::StructDef, "STRUCT_DEF"; l::EnumDef, "ENUM_DEF"; l::FnDef, "FN_DEF"; l::LetStmt, "LET_STMT";
                    l::ModDef, "MOD_DEF"; l::TypeParameter, "TYPE_PARAMETER";
                );
            }
            _ => {}
        }
    }
    Ok(h)
}

fn family(name: &str, sources: Vec<Source>) -> Family {
    let sources = Arc::new(sources);
    let cases: Vec<(usize, usize)> =
        sources.iter().enumerate().flat_map(|(i, s)| (0..s.texts.len()).map(move |k| (i, k))).collect();
    Family::new(
        name,
        format!("{} trees; every node, offset, range and node type", cases.len()),
        cases.len() as u64,
        move |i, ctx| {
            let (s, t) = cases[i as usize];
            let source = &sources[s];
            let text = &source.texts[t];
            ctx.state();
            ctx.check(&|| format!("{}: {:?}", source.name, text), || judge(source, text));
        },
    )
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![
        family("synthetic", model::synthetic(tier.pick(5, 6))),
        family("shipped", model::shipped(tier.pick(200, 600), true)),
        family("large", model::large(&sizes(tier.pick(20, 40), tier.pick(32, 128)), &sizes(tier.pick(12, 24), tier.pick(16, 64)))),
    ]
}
