fn main() {
    println!("cargo:rustc-cfg=symbolic_verif");
    println!("cargo:rustc-check-cfg=cfg(symbolic_verif)");
    println!("cargo:rerun-if-changed=build.rs");
}
