#!/bin/sh
# Builds the demonstration against the crate in the current directory and runs it.
# Exits 0 if the property holds, nonzero otherwise. Everything is kept in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/lib.rs" "$work/src/lib.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tchannel_rs = { path = "$repo", features = ["json"] }
tokio = { version = "1.17", features = ["rt-multi-thread", "net", "time", "sync", "macros"] }
bytes = "1"
futures = "0.3"
serde_json = "1"
[workspace]
EOF
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target"
export RUSTUP_TOOLCHAIN=stable
cargo build --offline -q 2> build.log || { cat build.log; exit 98; }
timeout -k 5 200 "$work/target/debug/demo"
