fn main() {
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=csrc/jitrt.c");
    cc::Build::new().file("csrc/jitrt.c").opt_level(1).compile("jitrt");
}
