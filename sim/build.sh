#!/bin/bash
# Builds the simulator against /repo's working tree, offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
exec cargo build --release --offline --quiet
