#!/bin/bash
# Builds the framework's own programs offline (checks rebuild whatever is missing).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p build evidence replays
cargo build -q --manifest-path vx/Cargo.toml --target-dir build/vx
cargo build -q --manifest-path native/Cargo.toml --target-dir build/native
