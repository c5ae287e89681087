#!/bin/bash
# Builds main.rs beside this file against the library in the current directory and runs it.
# Exit 0: behaves; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "${w:?}"' EXIT
mkdir -p "$w/src" "$w/scratch"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock.in" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "vh"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
moledyn = { path = "$repo" }
rand = "0.7"
rand_distr = "0.2.2"
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cd "$w/scratch" || exit 3
cargo build --quiet --offline --manifest-path "$w/Cargo.toml" || exit 3
timeout 120 "$w/target/debug/vh" "$w/scratch" > "$w/log" 2>&1
rc=$?
tail -n 5 "$w/log"
exit $rc
