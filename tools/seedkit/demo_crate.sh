#!/bin/bash
# Builds main.rs beside this file against the crates in the current directory and runs it.
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
export REPO="$(pwd)"
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
W="$(mktemp -d)"
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE"/*.rs "$W/src/"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nora_ssh = { path = "$REPO/nora_ssh" }
nora_ssh_core = { path = "$REPO/nora_ssh_core" }
rand = "0.8"
sha2 = "0.10"
p256 = "0.11"
ecdsa = "0.14"
futures = "0.3"
async-trait = "0.1"
[dependencies.x25519-dalek]
version = "2.0.0-pre.1"
default-features = false
features = ["u64_backend"]
T
if grep -q ed25519_dalek "$W"/src/*.rs; then
	printf '[dependencies.ed25519-dalek]\nversion = "1.0"\ndefault-features = false\n' >> "$W/Cargo.toml"
fi
cd "$W"
cargo build --offline -q 2>"$W/log" || { tail -30 "$W/log"; exit 9; }
timeout 120 ./target/debug/demo
