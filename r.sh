#!/bin/bash
# developer helper: r.sh ENTRY HEX: replay natively, with notes
V=$(cd "$(dirname "$0")" && pwd)
(cd $V/replay && CARGO_TARGET_DIR=$V/.work/target-replay RUSTUP_TOOLCHAIN=stable cargo build --offline -q 2>&1 | grep -E "^error" -A9)
d=$(mktemp -d /tmp/vp-replay-XXXXXX)
echo "$1 $2 1" | VP_AVDL=/repo/target/debug/avdl VP_NOTES=1 $V/.work/target-replay/debug/replay $d 2>&1 | cut -c1-2500
rm -rf "$d"
