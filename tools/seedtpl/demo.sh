#!/bin/bash
# Runs demo.rs (beside this file) against the crate in the current directory. Exit 0: behaves; 1: broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo-recent.lock" "$T/Cargo.lock"
cat >"$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
psbt-v2 = { path = "$R", features = ["std", "serde", "base64", "miniscript", "silent-payments"] }
bitcoin = { version = "0.32.8", features = ["serde", "base64", "rand-std"] }
miniscript = "12.2.0"
serde_json = "1"
[profile.dev]
debug = false
X
cd "$T" && cargo build --offline >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
timeout 60 ./target/debug/demo
