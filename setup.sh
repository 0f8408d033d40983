#!/bin/bash
# Builds the explorer once (each check rebuilds what changed).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg ruruby_mc -Awarnings"
cd mc && cargo build --offline
