#!/bin/sh
# Builds the harness (debug and release) from the committed files
cd "$(dirname "$0")/../harness" || exit 2
export CARGO_TARGET_DIR="$(cd .. && pwd)/target" RUSTFLAGS=-Awarnings
cargo build --offline -q && cargo build --offline -q --release
