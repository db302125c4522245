fn main() {
    // system libz3 (libz3-dev); no network, no crates
    println!("cargo:rustc-link-lib=dylib=z3");
}
