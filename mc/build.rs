fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bin=mc=-Wl,--export-dynamic-symbol=getrandom");
}
