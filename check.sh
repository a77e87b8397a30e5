#!/bin/bash
# check.sh PROPERTY: builds the monitors against /repo's working tree and runs them.
# exit 0: held; exit 1: violation (with a VIOLATION line); 2: no verdict.
# check.sh --setup: only builds.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/.build/target"
mkdir -p .build
if ! cargo build --offline --manifest-path harness/Cargo.toml >.build/build.log 2>&1; then
    tail -40 .build/build.log; echo "$1: the harness does not build"; exit 2
fi
[ "$1" = --setup ] && exit 0
[ "$1" = C20 ] && exec python3 san.py
exec .build/target/debug/tsverif check "$1"
