#!/bin/bash
# developer helper: build and run one check binary. usage: b.sh c08 [env...]
. /opt/vp/env.sh; export CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=/verif/target
[ $1 = c22 ] && export RUSTFLAGS="$RUSTFLAGS --cfg verif_dishonest_prover" CARGO_TARGET_DIR=/verif/target/c22
C=harness; [ -f /verif/fcheck/src/bin/$1.rs ] && C=fcheck
cd /verif/$C && cargo build --release --offline -q --bin $1 2>&1 | grep -E "^(error|warning: (unused|vharness))" -A12 | head -${LINES_MAX:-70}
[ ${PIPESTATUS[0]} -eq 0 ] || exit 2
cd /verif && time timeout ${TMO:-900} $CARGO_TARGET_DIR/release/$1
