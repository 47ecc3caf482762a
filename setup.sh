#!/bin/bash
# Builds the executor once (each check rebuilds it if it is missing, and rebuilds everything that depends on /repo).
set -e
cd "$(dirname "$0")"
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build --release --target-dir build/engine --manifest-path engine/Cargo.toml
