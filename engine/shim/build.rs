fn main() {
    println!("cargo:rustc-cfg=verif_hooks");
    println!("cargo:rustc-check-cfg=cfg(verif_hooks)");
    for (k, v) in [
        ("WASM_SHIM_PROFILE", "verif"),
        ("WASM_SHIM_FEATURES", "[]"),
        ("WASM_SHIM_GIT_HASH", "verif"),
    ] {
        println!("cargo:rustc-env={k}={v}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
