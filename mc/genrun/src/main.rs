#![allow(warnings)]
use mccore::{parse_opts, run_check, Notes};

include!(concat!(env!("OUT_DIR"), "/all.rs"));

fn main() {
    let o = parse_opts();
    let families = mcgen::fam::families(o.tier, compiled());
    run_check(o, families, Notes::default())
}
