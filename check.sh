#!/bin/bash
# check.sh <property> [quick|thorough]   -- build from /repo's working tree, then explore
# check.sh --replay <file>               -- re-execute one recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="--cfg ruruby_mc -Awarnings"
export RUST_BACKTRACE=0
log=$(mktemp)
if ! (cd mc && cargo build --offline) >"$log" 2>&1; then
  echo "ENGINE-ERROR: build failed"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
ulimit -c 0
if [ "$1" = "--replay" ]; then
  exec target/debug/mc --replay "$2"
fi
exec target/debug/mc "$1" --tier "${2:-${VERIF_TIER:-quick}}"
