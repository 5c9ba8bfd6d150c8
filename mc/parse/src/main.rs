use mcparse::*;
use mccore::{parse_opts, run_check, Notes};

fn main() {
    let o = parse_opts();
    let families = match o.property.as_str() {
        "C01" => c01::families(o.tier),
        "C03" => c03::families(o.tier),
        "C10" => c10::families(o.tier),
        "C02" => c02::families(o.tier),
        "C04" => c04::families(o.tier),
        "C05" => c05::families(o.tier),
        "C06" => c06::layers(o.tier),
        "C07" => c06::recovery(o.tier),
        "C08" => c08::families(o.tier),
        "C09" => c09::families(o.tier),
        p => panic!("unknown property {}", p),
    };
    run_check(o, families, Notes::default())
}
