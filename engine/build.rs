fn main() {
    // Z3's C API; libz3-dev is part of the sandbox image.
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
