fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    mcgen::emit(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()));
}
