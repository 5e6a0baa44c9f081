#!/bin/bash
# Prebuild everything the checks need (each check rebuilds what changed in /repo).
set -e
V=$(cd "$(dirname "$0")" && pwd); cd "$V"
W="${VERIF_WORK:-$V/.work}"
python3 env/prepare.py
env/engine.sh & a=$!
(env/wasm.sh harness && env/wasm.sh cli) & b=$!
wait $a; wait $b
cd replay
export CARGO_TARGET_DIR=$W/target-replay RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cargo build --offline -q --release
cargo build --offline -q
CARGO_TARGET_DIR=$W/target-tool cargo build --offline --locked -q --bin avdl --manifest-path "${VERIF_REPO:-/repo}/Cargo.toml"
