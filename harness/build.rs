fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // make our libc overrides visible to code that looks them up at run time
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
