fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=clock_gettime");
    println!("cargo:rerun-if-changed=build.rs");
}
