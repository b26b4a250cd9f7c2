#!/bin/bash
# run with cwd = the repository; exit 0 if the guarantee held, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/faerie-demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<T
[package]
name = "faerie-demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
faerie = { path = "$repo" }
goblin = "0.6"
target-lexicon = "0.12"
log = "0.4"
[profile.dev]
debug = false
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cd "$d" || exit 9
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true RUSTC_WRAPPER= DEMO_SCRATCH=$d/scratch
cargo build --offline -q 2>"$d/build.log" || { cat "$d/build.log" >&2; exit 8; }
timeout 120 "$d/target/debug/faerie-demo"
