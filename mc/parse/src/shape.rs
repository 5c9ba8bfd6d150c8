//! The losslessness invariant of a syntax tree.

use fall_tree::{File, Node, TextRange};

use crate::spec::is_leaf;

pub fn check_shape(file: &File, text: &str) -> Result<(), String> {
    if file.text().to_string() != text {
        return Err(format!("the file's text is {:?}", file.text().to_string()));
    }
    let root = file.root();
    if root.parent().is_some() {
        return Err("the root has a parent".to_owned());
    }
    if root.range() != TextRange::from_len(fall_tree::tu(0), fall_tree::tu(text.len() as u32)) {
        return Err(format!("the root covers {:?} of {} bytes", root.range(), text.len()));
    }
    let mut leaves = String::new();
    node(root, text, &mut leaves)?;
    if leaves != text {
        return Err(format!("the leaves spell {:?}", leaves));
    }
    Ok(())
}

fn node(n: Node, text: &str, leaves: &mut String) -> Result<(), String> {
    let r = n.range();
    let (start, end) = (r.start().utf8_len() as usize, r.end().utf8_len() as usize);
    if !(text.is_char_boundary(start) && text.is_char_boundary(end)) {
        return Err(format!("{:?} at {:?} is not on character boundaries", n, r));
    }
    let slice = &text[start..end];
    if n.text().to_string() != slice {
        return Err(format!("the text of {:?} at {:?} is {:?}", n, r, n.text().to_string()));
    }
    if is_leaf(n) {
        leaves.push_str(slice);
        return Ok(());
    }
    let mut at = r.start();
    for c in n.children() {
        if c.parent() != Some(n) {
            return Err(format!("{:?} at {:?} is not the parent of its child {:?}", n, r, c));
        }
        if c.range().start() != at {
            return Err(format!(
                "in {:?} at {:?}: the child {:?} at {:?} does not start at {:?}", n, r, c, c.range(), at
            ));
        }
        at = c.range().end();
        node(c, text, leaves)?;
    }
    if at != r.end() {
        return Err(format!("the children of {:?} at {:?} end at {:?}", n, r, at));
    }
    Ok(())
}
