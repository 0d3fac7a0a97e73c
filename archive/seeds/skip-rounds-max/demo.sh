#!/bin/bash
# Builds the small program beside this script against the current directory's tree and runs it.
# exit 0: the behaviour is right; non-zero: it is broken.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r "$D/demo/." "$W/"
sed -i "s#/repo/#$R/#" "$W/prog/Cargo.toml"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" CARGO_INCREMENTAL=0
cd "$W/prog" && cargo build --offline -q 2>"$W/log" || { tail -30 "$W/log"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
