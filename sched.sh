#!/bin/bash
# Build the checker against a copy of /repo in which every `std::` is `lcc_std::`.
# Prints the path of the binary; fails if the copy does not build.
cd "$(dirname "$0")/mc-sched" || exit 2
REPO=${MC_REPO:-$PWD/../../repo}
I=target-inst/lcc
N=target-inst/lcc.new
rm -rf "$PWD/$N"
mkdir -p "$N" $I || exit 2
cp -r "$REPO/src" "$N/src" || exit 2
find "$N/src" -name '*.rs' -exec perl -pi -e 's/(?<![\w:])(?:::)?std::/lcc_std::/g' {} +
# the manifest, without what only its tests need, plus lcc_std
awk '/^\[/{skip = ($0 ~ /^\[(dev-dependencies|\[bench\]|\[test\]|\[example\])/)} !skip' "$REPO/Cargo.toml" |
    awk '{print} /^\[dependencies\]/{print "lcc_std = { path = \"../../../lcc_std\" }"}' >"$N/Cargo.toml"
# keep time stamps of what is the same, so that cargo does not rebuild it
rsync -rc --delete "$N/" "$I/" 2>/dev/null || { rm -rf "$PWD/$I"; cp -r "$N" "$I"; }
rm -rf "$PWD/$N"
cargo build --offline --release >build.log 2>&1 || { tail -n 40 build.log >&2; exit 1; }
echo "$PWD/target/release/mc"
