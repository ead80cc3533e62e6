#!/bin/bash
# Run with cwd = the gvas tree: builds demo.rs (beside this script) against it; exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[workspace]

[dependencies]
gvas = { path = "$repo", features = ["serde"] }
serde_json = { version = "1.0", features = ["float_roundtrip", "preserve_order"] }
byteorder = "1.5"
flate2 = "1.1"
indexmap = "2"
ordered-float = "5"

[profile.dev]
debug = false
incremental = false
T
cd "$tmp" || exit 3
cargo build --offline --quiet || exit 3
./target/debug/demo
