#!/bin/bash
# Builds the symbolic executor.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; W="${VERIF_WORK:-$V/.work}"
cd "$V/engine"
CARGO_TARGET_DIR="$W/target-engine" RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q
