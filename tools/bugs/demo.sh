#!/bin/bash
# Builds main.rs (beside this file) against the pkstl of the current directory, in a scratch
# directory, and runs it: exit 0 if the property held.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/demo/src"
cp "$HERE"/*.rs "$WORK/demo/src/"
cp "$REPO/Cargo.lock" "$WORK/demo/Cargo.lock"
cat > "$WORK/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
pkstl = { path = "$REPO", features = ["bin", "cbor", "json"] }
ring = "0.16.9"
chacha20-poly1305-aead = "0.1.2"
flate2 = "1.0"
serde = { version = "1.0", features = ["derive"] }
TOML
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.77.2} CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR=${DEMO_TARGET:-$WORK/target}
cd "$WORK/demo" && cargo build --offline -q 2> "$WORK/log" || { tail -30 "$WORK/log" >&2; exit 3; }
timeout 250 "$CARGO_TARGET_DIR/debug/demo"
