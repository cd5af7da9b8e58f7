fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // system libz3 (4.8.12, listed in the sandbox's tools)
    println!("cargo:rustc-link-lib=dylib=z3");
}
