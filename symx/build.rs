fn main() {
    // The distribution's libz3 development package (z3.h, libz3.so) is installed; we declare the few
    // functions used ourselves (src/z3.rs).
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
}
