#!/bin/bash
# developer helper: rebuild the harness, then run the given entries
V=$(cd "$(dirname "$0")" && pwd)
python3 $V/env/entries.py; $V/env/wasm.sh $CRATE 2>&1 | grep -E "^error" -A9 && exit 1
for e in "$@"; do $V/run.sh $e ${SECS:-60} $OPTS | cut -c1-900; done
