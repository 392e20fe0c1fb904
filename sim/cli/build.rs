// Copies a command line tool of /repo, so that it can be built as a library:
// its `main` becomes public and the harness keeps its own allocator.
use std::path::Path;

fn line(l: &str) -> String {
    let t = l.trim_start();
    if t.starts_with("//!") || t.starts_with("#![") || t.starts_with("#[global_allocator]") {
        String::new()
    } else if l.starts_with("fn main(") {
        format!("pub {l}")
    } else {
        l.into()
    }
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    println!("cargo:rerun-if-changed={}", from.display());
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let (a, b) = (e.path(), to.join(e.file_name()));
        println!("cargo:rerun-if-changed={}", a.display());
        if a.is_dir() {
            copy(&a, &b);
            continue;
        }
        let s = std::fs::read_to_string(&a).unwrap();
        let s: String = s.lines().map(|l| line(l) + "\n").collect();
        std::fs::write(b, s).unwrap();
    }
}

fn main() {
    println!("cargo:rerun-if-changed=../build.rs");
    let dir = match std::env::var("CARGO_PKG_NAME").unwrap().as_str() {
        "cli-badger" => "/repo/badger-optimiser/src",
        _ => "/repo/compile-rewriter/src",
    };
    let out = std::env::var("OUT_DIR").unwrap();
    copy(Path::new(dir), &Path::new(&out).join("src"));
}
