#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
set -e
cd /verif/sim
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS= RUSTC_WRAPPER=/verif/sim/rustc-wrapper.sh RUSTC_WORKSPACE_WRAPPER=
export CARGO_TARGET_DIR=/verif/sim/target
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# cargo decides by mtime: forget the crate under test, so that a restored file is seen
rm -rf /verif/sim/target/debug/.fingerprint/geos-rs-*
cargo build --offline --locked "$@"
