fn main() {
    // libz3 (system, 4.8.12) is linked directly; the C API is declared by hand in src/z3.rs
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
