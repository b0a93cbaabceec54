#!/bin/bash
# Builds main.rs against the crate in the working directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/tmp"
cp "$here"/*.rs "$w/src/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rusty-git = { path = "$repo" }
flate2 = "1"
sha-1 = "0.9.1"
bstr = "0.2.13"
filetime = "0.2.12"
[profile.dev]
debug = 0
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet || exit 2
ulimit -v 8000000
RG_SCRATCH="$w/tmp" timeout 120 "$w/target/debug/demo"
