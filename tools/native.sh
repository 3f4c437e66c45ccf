#!/bin/bash
# usage: native.sh [FEATURE]
# builds the native replay binary from /repo's working tree; prints its path
set -e
. "$(dirname "$0")/env.sh"
export CARGO_TARGET_DIR=$VERIF/build/rt
export RUSTFLAGS="--cap-lints=allow -Awarnings -Cdebuginfo=0"
fresh $CARGO_TARGET_DIR
cd $VERIF/harness
cargo build --bin replay --offline --no-default-features --features ${1:-gov} >&2
echo $CARGO_TARGET_DIR/debug/replay
