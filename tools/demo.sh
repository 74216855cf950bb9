#!/bin/bash
# Runs the program demo.rs beside this script against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; [ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
http-types = { path = "$repo", features = ["hyperium_http", "unstable"] }
http = "0.2.0"
async-std = "1"
futures-lite = "1.11.1"
serde_json = "1.0.51"
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = false
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"; unset RUSTC_WRAPPER RUSTFLAGS
cd "$d" || exit 3
cargo build --offline -q 2> "$d/build.log" || { cat "$d/build.log"; exit 2; }
timeout 60 "$d/target/debug/demo"
