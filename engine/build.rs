fn main() {
    for d in ["/usr/lib/x86_64-linux-gnu", "/usr/lib", "/usr/local/lib"] {
        if std::path::Path::new(&format!("{d}/libz3.so")).exists() {
            println!("cargo:rustc-link-search=native={d}");
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
