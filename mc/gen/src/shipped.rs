//! The parsers shipped with the repository against the grammars they were generated from.

use std::sync::Arc;

use fall_tree::{File, Node};
use mccore::util::fnv_mix;
use mccore::{Family, Tier};
use mceditor::texts::{self, Depth};
use mcparse::langs;
use mcparse::spec;

use crate::refc::{Model, Verdict};
use crate::run;

fn path(name: &str) -> String {
    let p = match name {
        "json" | "bnf" => format!("lang/{0}/src/{0}.fall", name),
        "fall" | "rust" => format!("lang/{0}/syntax/src/{0}.fall", name),
        _ => format!("fall/test/src/{}.fall", name),
    };
    format!("/repo/{}", p)
}

/// Tokens of a file which the parser sees: type in the model, start, length.
fn tokens(n: Node, model: &Model, out: &mut Vec<(u32, u32, u32)>) -> Result<(), String> {
    if spec::is_leaf(n) {
        let info = n.file().language().node_type_info(n.ty());
        let ty = type_of(model, info.name)?;
        if model.types[ty as usize].1 != info.whitespace_like {
            return Err(format!("{} is skipped: {}", info.name, info.whitespace_like));
        }
        let r = n.range();
        if !info.whitespace_like && r.len().utf8_len() > 0 {
            out.push((ty, r.start().utf8_len() as u32, r.len().utf8_len() as u32));
        }
        return Ok(());
    }
    for c in n.children() {
        tokens(c, model, out)?;
    }
    Ok(())
}

fn type_of(model: &Model, name: &str) -> Result<u32, String> {
    model.types.iter().position(|t| t.0 == name).map(|t| t as u32).ok_or_else(|| format!("a node of the type {}", name))
}

fn compare(model: &Model, types: &[fall_tree::NodeType], file: &File, text: &str) -> Result<Option<u64>, String> {
    let mut sig = Vec::new();
    tokens(file.root(), model, &mut sig)?;
    let want = match spec::parse_bounded(&model.exprs, types, text, &sig, 2_000_000) {
        Ok(t) => t,
        Err(_) => return Ok(None),
    };
    let mut expected = Vec::new();
    spec::flatten(&want, &mut expected);
    let mut got = Vec::new();
    run::flat(file.root(), model, true, &mut got)?;
    if got != expected {
        let at = got.iter().zip(&expected).take_while(|(a, b)| a == b).count();
        let from = at.saturating_sub(12);
        let show = |v: &[u64]| {
            let v = &v[from.min(v.len())..(at + 12).min(v.len())];
            spec::show_flat(v, &|t| model.types[t as usize].0.clone())
        };
        return Err(format!("expected tree: ... {}\n  actual tree: ... {}", show(&expected), show(&got)));
    }
    Ok(Some(got.iter().fold(7, |h, &x| fnv_mix(h, x & 0xfffff | x >> 60 << 60))))
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    for s in langs::all() {
        let s = Arc::new(s);
        let name = s.name;
        let text = std::fs::read_to_string(path(name)).expect("a grammar");
        let model = match run::verdict(&text) {
            Verdict::Valid(m) => Ok(m),
            Verdict::Invalid(why) => Err(why),
            Verdict::Open(why) => {
                eprintln!("{}: {}", name, why);
                continue;
            }
        };
        let model = match model {
            Ok(m) => Arc::new(m),
            Err(why) => {
                res.push(Family::new(format!("shipped-{}", name), "its grammar is valid", 1, move |_, ctx| {
                    ctx.state();
                    ctx.check(&|| format!("the grammar of {}", name), || Err(why.clone()));
                }));
                continue;
            }
        };
        let d = match name {
            "rust" => Depth { short: 2, long: tier.pick(2, 3), sample: tier.pick(400, 2000), all_pieces: tier.pick(false, true) },
            "fall" => Depth { short: 2, long: tier.pick(3, 4), sample: tier.pick(400, 2000), all_pieces: tier.pick(false, true) },
            _ => Depth { short: tier.pick(3, 4), long: tier.pick(4, 5), sample: 1000, all_pieces: true },
        };
        let types: Vec<fall_tree::NodeType> = (0..model.types.len() as u32).map(fall_tree::NodeType).collect();
        for mut f in texts::families(
            &s,
            &[],
            d,
            Arc::new(move |s, text, ctx| {
                let file = match mccore::guarded(|| Ok((s.lang)().parse(text.to_owned()))) {
                    Ok(f) => f,
                    Err(e) => return ctx.fail(format!("{} on {:?}", s.name, text), e),
                };
                ctx.state();
                match mccore::guarded(|| compare(&model, &types, &file, text)) {
                    Ok(None) => ctx.count("outside_of_the_domain", 1),
                    Ok(Some(h)) => {
                        ctx.transition();
                        ctx.outcome(h)
                    }
                    Err(e) => ctx.fail(format!("{} on {:?}", s.name, text), e),
                }
                ctx.beat();
            }),
        ) {
            f.name = format!("shipped-{}", f.name);
            res.push(f);
        }
    }
    res
}
