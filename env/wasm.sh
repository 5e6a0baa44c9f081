#!/bin/bash
# Build a crate (harness, cli) for wasm64 with the modelled std. Usage: wasm.sh [CRATE]
V=$(cd "$(dirname "$0")/.." && pwd); W=${VERIF_WORK:-$V/.work}
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export __CARGO_TESTS_ONLY_SRC_ROOT=$W/std-src/library CARGO_TARGET_DIR=$W/target-wasm
cd "$V/${1:-harness}" && exec cargo build --lib --release --offline --target wasm64-unknown-unknown \
  -Zbuild-std=std,panic_abort \
  --config "source.crates-io.replace-with='v'" --config "source.v.directory='$W/vendor'"
