//! The generator against a reference reading of grammars.

pub mod fam;
pub mod refc;
pub mod rtv;
pub mod run;
pub mod shipped;

pub use crate::run::Compiled;

/// Writes the parsers of the chosen grammars as modules.
pub fn emit(dir: &std::path::Path) {
    use std::fs;
    let mut list = String::new();
    let mut mods = String::new();
    for (i, g) in fam::chosen().iter().enumerate() {
        let code = std::panic::catch_unwind(|| run::generate(&g.text));
        let model = match run::verdict(&g.text) {
            refc::Verdict::Valid(m) => Some(m),
            _ => None,
        };
        match (code, model) {
            (Ok(Ok(code)), Some(m)) => {
                fs::write(dir.join(format!("g{}.rs", i)), code).unwrap();
                fs::write(dir.join(format!("v{}.rs", i)), run::views_code(&m)).unwrap();
                mods += &format!(
                    "mod g{0} {{\n    include!(concat!(env!(\"OUT_DIR\"), \"/g{0}.rs\"));\n    pub mod views_ {{\n        include!(concat!(env!(\"OUT_DIR\"), \"/v{0}.rs\"));\n    }}\n}}\n",
                    i
                );
                list += &format!("    Some(mcgen::Compiled {{ language: g{0}::language, views: g{0}::views_::views }}),\n", i);
            }
            _ => list += "    None,\n",
        }
    }
    let main = format!("{}\npub fn compiled() -> Vec<Option<mcgen::Compiled>> {{ vec![\n{}] }}\n", mods, list);
    fs::write(dir.join("all.rs"), main).unwrap();
}
