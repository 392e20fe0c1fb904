fn main() {
    println!("cargo:rustc-cfg=tket_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
