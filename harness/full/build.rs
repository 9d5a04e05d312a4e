fn main() {
    // Recompile whenever the sources of /repo differ, whatever their timestamps.
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
    println!("cargo:rustc-link-lib=openblas");
}
