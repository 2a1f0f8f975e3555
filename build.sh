#!/bin/bash
# Builds /verif/target/release/gsmc from /repo's current working tree (offline).
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
export CARGO_HOME="${CARGO_HOME:-}"; [ -n "$CARGO_HOME" ] || unset CARGO_HOME
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_BOOTSTRAP
export RUSTC_WRAPPER=/verif/tools/rustc-mc.sh
# cargo notices changes by time stamp only: always compile the library and the checker anew.
find /verif/target/release/.fingerprint -maxdepth 1 \( -name 'groth-sahai-*' -o -name 'gsmc-*' \) -exec rm -rf {} + 2>/dev/null
( cd /verif/mc && cargo build --offline --release --locked -q ) || { echo "build failed"; exit 2; }
