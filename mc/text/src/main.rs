mod c11;
mod c12;
mod c13;
mod c14;
mod model;

use mccore::{parse_opts, run_check, Notes};

fn main() {
    let o = parse_opts();
    let families = match o.property.as_str() {
        "C11" => c11::families(o.tier),
        "C12" => c12::families(o.tier),
        "C13" => c13::families(o.tier),
        "C14" => c14::families(o.tier),
        p => panic!("unknown property {}", p),
    };
    run_check(o, families, Notes::default())
}
