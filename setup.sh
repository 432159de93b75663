#!/bin/bash
# Builds the symbolic executor; each check rebuilds the crate's IR itself.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p target
cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir target/engine
