#!/bin/bash
# Builds and runs main.rs (next to this file) against the fizyr-rpc crate in the
# current directory.  Exit status 0: the property held; everything happens in a
# scratch directory that is removed afterwards.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here"/*.rs "$dir/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fizyr-rpc = { path = "$repo", features = ["macros", "tcp", "unix-stream", "unix-seqpacket"] }
tokio = { version = "1.32.0", features = ["rt", "macros", "net", "io-util", "time", "sync"] }
tokio-seqpacket = "0.7.0"
filedesc = "0.6.1"
[workspace]
TOML
cd "$dir"
export CARGO_TARGET_DIR="$dir/target" RUSTFLAGS=-Awarnings
cargo build --offline -q
SCRATCH="$dir" timeout 60 "$dir/target/debug/demo"
