#!/bin/bash
# Build the model checker and the library under test, offline.
cd "$(dirname "$0")" || exit 2
(cd mc && cargo build --offline --release) || exit
./sched.sh
