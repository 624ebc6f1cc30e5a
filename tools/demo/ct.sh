#!/bin/bash
# Builds and runs the demonstration main.rs against the crylib of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
crylib = { path = "$PWD/crylib" }
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run -q --release --offline
