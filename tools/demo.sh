#!/bin/bash
# builds main.rs against the library in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
libfranka-rs = { path = "$repo" }
nalgebra = "0.23"
[workspace]
T
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2>"$work/err" || { cat "$work/err"; exit 2; }
timeout 60 "$work/target/debug/demo"
