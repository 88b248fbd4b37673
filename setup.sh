#!/bin/bash
# Builds every monitor once from the committed files (offline).
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
for c in constraint numeric core; do
    (cd harness/$c && cargo build --offline --bins) >/dev/null 2>&1 || { echo "setup: harness/$c does not build"; exit 1; }
done
(cd harness/core && cargo build --offline --bins --features transform) >/dev/null 2>&1 || { echo "setup: harness/core with transformations does not build"; exit 1; }
