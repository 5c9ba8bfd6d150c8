mod c18;
mod ops;
mod sched;

use std::alloc::{GlobalAlloc, Layout, System};

use mccore::{parse_opts, run_check, Notes};

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::allocation();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

fn main() {
    let o = parse_opts();
    let families = match o.property.as_str() {
        "C18" => c18::families(o.tier),
        p => panic!("unknown property {}", p),
    };
    run_check(o, families, Notes::default())
}
