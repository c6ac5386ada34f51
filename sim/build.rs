fn main() {
    // libraries that look their functions up with dlsym have to find the simulated ones
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
