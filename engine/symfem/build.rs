use std::path::Path;
fn main() {
    let repo = std::env::var("FEM_REPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rerun-if-env-changed=FEM_REPO");
    println!("cargo:rerun-if-env-changed=FEM_CASTS");
    let root = Path::new(&repo).join("src/lib.rs");
    let (src, files) = xform::transform(&root, &xform::Options { features: vec!["json_export".into(), "default".into()], casts: std::env::var("FEM_CASTS").is_ok() });
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
    }
    println!("cargo:rerun-if-changed={}", Path::new(&repo).join("src").display());
    let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join("lib.rs");
    std::fs::write(out, src).unwrap();
}
