#!/bin/bash
# Runs demo.rs against the crate in the current directory.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/demo/src" "$scratch/files"
cp "$here/demo.rs" "$scratch/demo/src/main.rs"
cat > "$scratch/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[dependencies]
mp4ameta = { path = "$repo" }

[workspace]
TOML
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cap-lints warn" RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$scratch/target" SCRATCH="$scratch/files"
cd "$scratch/demo" || exit 2
cargo build -q --offline 2>"$scratch/log" || { cat "$scratch/log"; exit 2; }
timeout 60 "$scratch/target/debug/demo"
