fn main() { println!("cargo:rerun-if-env-changed=REPO_HASH"); println!("cargo:rustc-env=REPO_HASH={}", std::env::var("REPO_HASH").unwrap_or_default()); }
