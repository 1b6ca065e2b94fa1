fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=PSSIM_ZOO_SEED={}", std::env::var("ZOO_SEED").ok().filter(|s| s.parse::<u64>().is_ok()).unwrap_or_else(|| "1".into()));
}
