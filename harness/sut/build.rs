fn main() {
    println!("cargo:rustc-check-cfg=cfg(md_recover_verif)");
    println!("cargo:rustc-cfg=md_recover_verif");
    // The driver script passes a hash of /repo/src, so that a change is seen
    // even if file times say otherwise.
    println!("cargo:rerun-if-env-changed=MDR_SRC_HASH");
    println!("cargo:rerun-if-changed=/repo/src");
    println!(
        "cargo:rustc-env=MDR_SRC_HASH={}",
        std::env::var("MDR_SRC_HASH").unwrap_or_default()
    );
}
