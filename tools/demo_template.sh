#!/bin/bash
# Run with cwd = repository root: exit 0 when the property holds, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/" || exit 3
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
fhe = { path = "$R/crates/fhe", features = ["experimental-mbfv"] }
fhe-math = { path = "$R/crates/fhe-math" }
fhe-util = { path = "$R/crates/fhe-util" }
fhe-traits = { path = "$R/crates/fhe-traits" }
rand = "*"
rand_chacha = "*"
num-bigint = "*"
ndarray = "*"
[profile.dev]
opt-level = 1
debug = 0
X
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo run -q --offline
