#!/bin/bash
# Builds every variant of the harness once, to show that the committed files build offline.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
TC=$(sed -n 's/^export RUSTUP_TOOLCHAIN=//p' /opt/vp/env.sh 2>/dev/null)
export RUSTUP_TOOLCHAIN=${TC:-nightly-2026-04-01} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=$PWD/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --release --offline --locked --manifest-path harness/Cargo.toml --no-default-features --features hosted,p_math
