use mccore::{parse_opts, run_check, Notes};

mod c21;
mod c22;

fn main() {
    let o = parse_opts();
    let families = match o.property.as_str() {
        "C21" => c21::families(o.tier),
        "C22" => c22::families(o.tier),
        p => panic!("unknown property {}", p),
    };
    run_check(o, families, Notes::default())
}
