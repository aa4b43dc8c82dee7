fn main() {
    // lets the interposed libc symbols be found by dlsym as well
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
