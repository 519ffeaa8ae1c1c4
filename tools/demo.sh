#!/bin/bash
# Builds a small program against the htrpc in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/common.rs" "$tmp/src/"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
htrpc = { path = "$repo" }
serde = "1"
serde_derive = "1"
fibers = "0.1"
futures = "0.1"
trackable = "1"
serdeconv = "0.4"
[workspace]
[profile.dev]
debug = 0
incremental = false
T
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
(cd "$tmp" && cargo build --offline -q) > "$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 8; }
timeout -k 5 120 "$tmp/target/debug/demo"
