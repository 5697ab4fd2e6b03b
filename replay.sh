#!/bin/bash
# usage: replay.sh <file>: run the one case that a VIOLATION line names.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
if [[ $(basename "$f") == C15-* ]]; then
    bin=$(./sched.sh) || exit 2
else
    (cd mc && cargo build --offline --release >/dev/null 2>&1) || exit 2
    bin=mc/target/release/mc
fi
MC_VERIF=$PWD exec "$bin" replay "$f"
