//! A plain copy of a tree, read off children and ranges only.

use fall_tree::{File, Node, NodeTypeInfo};

pub struct M<'f> {
    /// In preorder.
    pub nodes: Vec<N<'f>>,
    pub text: String,
}

pub struct N<'f> {
    pub node: Node<'f>,
    pub ty: u32,
    pub start: usize,
    pub end: usize,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    /// One past the last node of the subtree.
    pub last: usize,
}

impl<'f> M<'f> {
    pub fn new(file: &'f File) -> M<'f> {
        let mut m = M { nodes: Vec::new(), text: file.text().to_string() };
        m.add(file.root(), None);
        m
    }

    fn add(&mut self, node: Node<'f>, parent: Option<usize>) -> usize {
        let i = self.nodes.len();
        let r = node.range();
        self.nodes.push(N {
            node,
            ty: node.ty().0,
            start: r.start().utf8_len(),
            end: r.end().utf8_len(),
            parent,
            children: Vec::new(),
            last: 0,
        });
        for c in node.children() {
            let k = self.add(c, Some(i));
            self.nodes[i].children.push(k);
        }
        self.nodes[i].last = self.nodes.len();
        i
    }

    pub fn is_leaf(&self, i: usize) -> bool {
        self.nodes[i].children.is_empty() && self.nodes[i].start < self.nodes[i].end
    }

    /// Leaves below `i` that contain the offset or touch it.
    pub fn leaves_at(&self, i: usize, offset: usize) -> Vec<usize> {
        (i..self.nodes[i].last)
            .filter(|&k| self.is_leaf(k) && self.nodes[k].start <= offset && offset <= self.nodes[k].end)
            .collect()
    }

    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.nodes[*v.last().unwrap()].parent {
            v.push(p);
        }
        v
    }

    /// The smallest node below `root` that covers the range: the innermost one
    /// for a range with characters; for an empty one, the leaf it is inside
    /// of or the innermost node that has both neighbours.
    pub fn covering(&self, root: usize, s: usize, e: usize) -> usize {
        if s < e {
            let mut best = root;
            for i in root..self.nodes[root].last {
                if self.nodes[i].start <= s && e <= self.nodes[i].end {
                    best = i;
                }
            }
            return best;
        }
        let leaves = self.leaves_at(root, s);
        match leaves.len() {
            0 => root,
            1 => leaves[0],
            _ => {
                let other = self.ancestors(leaves[1]);
                *self.ancestors(leaves[0]).iter().find(|a| other.contains(a)).unwrap()
            }
        }
    }

    pub fn info(&self, i: usize) -> NodeTypeInfo {
        let n = self.nodes[i].node;
        n.file().language().node_type_info(n.ty())
    }

    /// Name of the node's type.
    pub fn name(&self, i: usize) -> &'static str {
        self.info(i).name
    }

    /// Whitespace or a comment.
    pub fn skipped(&self, i: usize) -> bool {
        self.info(i).whitespace_like
    }

    pub fn text_of(&self, i: usize) -> &str {
        &self.text[self.nodes[i].start..self.nodes[i].end]
    }

    pub fn range(&self, i: usize) -> (usize, usize) {
        (self.nodes[i].start, self.nodes[i].end)
    }

    pub fn all(&self) -> std::ops::Range<usize> {
        0..self.nodes.len()
    }

    /// Children of a type, by name.
    pub fn kids<'a>(&'a self, i: usize, name: &'a str) -> impl Iterator<Item = usize> + 'a {
        self.nodes[i].children.iter().cloned().filter(move |&c| self.name(c) == name)
    }

    pub fn kid(&self, i: usize, name: &str) -> Option<usize> {
        self.kids(i, name).next()
    }

    /// Nearest proper ancestor of a type, by name.
    pub fn enclosing(&self, i: usize, name: &str) -> Option<usize> {
        self.ancestors(i).into_iter().skip(1).find(|&a| self.name(a) == name)
    }

    pub fn has_errors(&self) -> bool {
        self.all().any(|i| self.name(i) == "ERROR")
    }

    pub fn postorder(&self, i: usize, out: &mut Vec<usize>) {
        for &c in &self.nodes[i].children {
            self.postorder(c, out);
        }
        out.push(i);
    }
}
