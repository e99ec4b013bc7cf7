#!/bin/bash
# Builds the small program beside this script against /repo and runs it: exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/*.rs "$here"/Cargo.toml "$here"/Cargo.lock "$work"/ || exit 2
export PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
( cd "$work" && cargo build --offline ) >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 2; }
timeout 60 "$work/target/debug/demo"
