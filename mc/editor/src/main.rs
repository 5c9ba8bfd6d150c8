use mceditor::*;
use mccore::{parse_opts, run_check, Notes};

fn main() {
    let o = parse_opts();
    let families = match o.property.as_str() {
        "C15" => c15::families(o.tier),
        "C16" => c16::families(o.tier),
        "C17" => c17::families(o.tier),
        "C19" => c19::families(o.tier),
        "C25" => c25::families(o.tier),
        "C23" => c23::families(o.tier),
        p => panic!("unknown property {}", p),
    };
    run_check(o, families, Notes::default())
}
