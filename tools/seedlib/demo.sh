#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$here/common.rs" "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
sed "s#REPO#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
export HOME=/root RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
cd "$tmp" || exit 2
cargo build --offline --quiet FLAGS || exit 2
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
