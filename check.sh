#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Rebuild from /repo's working tree, then explore.
cd "$(dirname "$0")" || exit 2
V=$PWD
bin=
if [ "$1" = C15 ]; then
    # scheduling points inside the library's reference counts
    bin=$(./sched.sh 2>/dev/null) || bin=
fi
if [ -z "$bin" ]; then
    bin=$V/mc/target/release/mc
    log=$(mktemp)
    # cargo goes by time stamps; an older file put back would escape it
    sum=$(cd ../repo && find src Cargo.toml -type f -exec sha256sum {} + | sort | sha256sum)
    if [ "$sum" != "$(cat mc/target/.lcc-sum 2>/dev/null)" ]; then
        (cd mc && cargo clean --offline --release -p lazy-clone-collections >/dev/null 2>&1)
    fi
    if ! (cd mc && cargo build --offline --release >"$log" 2>&1); then
        tail -n 60 "$log" >&2
        rm -f "$log"
        echo "ERROR $1: the library or the harness does not build" >&2
        exit 2
    fi
    rm -f "$log"
    echo "$sum" >mc/target/.lcc-sum
fi
MC_VERIF=$V exec "$bin" check "$1" "$2"
