#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this file) against it in a scratch crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
geos-rs = { path = "$repo" }
T
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTFLAGS="--cfg geos_sim -Awarnings" RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q || { echo "demo does not build"; exit 3; }
timeout 60 "$d/target/debug/demo"
