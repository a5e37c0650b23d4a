#!/bin/bash
# Builds the executor once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/../harness" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target
cargo build --offline --bin executor || exit 1
cargo build --offline --bin searcher || true
