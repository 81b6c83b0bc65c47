#!/bin/bash
# Runs demo.rs (beside this file) against the linesweeper crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
linesweeper = { path = "$repo" }
kurbo = "0.12.0"
[profile.dev]
opt-level = 1
TOML
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$work/Cargo.lock"
cd "$work"
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet || { echo "the demo doesn't build"; exit 4; }
timeout 100 "$work/target/debug/demo"
