#!/bin/bash
# Builds the demonstration beside this script against the vpin crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
[ -f /opt/vp/env.sh ] && { . /opt/vp/env.sh; cd "$R"; }
T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src" "$T/work"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
vpin = { path = "$R" }
cfb = "0.14.0"
image = { version = "0.25.9", default-features = false, features = ["bmp", "png", "webp"] }
serde_json = "1.0.145"
flate2 = { version = "1.1.8", features = ["zlib-rs"], default-features = false }
[profile.dev]
debug = 0
opt-level = 1
EOF
export CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" CARGO_NET_OFFLINE=true
cargo build --offline --manifest-path "$T/Cargo.toml" >"$T/build.log" 2>&1 || { tail -20 "$T/build.log"; exit 99; }
cd "$T/work" && timeout 200 "$CARGO_TARGET_DIR/debug/demo"
