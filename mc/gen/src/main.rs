//! Everything but the compiled parsers.

use mccore::{parse_opts, run_check, Notes};

fn main() {
    let o = parse_opts();
    let families = mcgen::fam::interpreted(o.tier);
    run_check(o, families, Notes::default())
}
