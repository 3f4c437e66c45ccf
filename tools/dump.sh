#!/bin/bash
# usage: dump.sh OUT.json [FEATURE]   -- MIR of every function the contracts reach, from /repo's working tree
set -e
OUT=$(realpath -m $1)
. "$(dirname "$0")/env.sh"
export CARGO_TARGET_DIR=$VERIF/build/nt
export RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on --cap-lints=allow -Awarnings --cfg=verif_mir"
fresh $CARGO_TARGET_DIR
cd $VERIF/harness
VDRIVER_CFG=$VERIF/engine/driver.cfg VDRIVER_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$VERIF/build/driver cargo check --lib --offline --no-default-features --features ${2:-gov}
