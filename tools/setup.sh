#!/bin/bash
# builds the verifier's front end and warms the dependency builds
set -e
. "$(dirname "$0")/env.sh"
cd $VERIF
mkdir -p build/patch
P=build/patch/trie-db
if [ ! -d $P ]; then
	cp -r ~/.cargo/registry/src/index.crates.io-*/trie-db-0.29.1 $P.tmp
	sed -i 's/collect::<Result<_, _, _>>()?/collect::<Result<(), _, _>>()?/' $P.tmp/src/node.rs
	mv $P.tmp $P
fi
( cd driver && env -u RUSTC rustup run nightly rustc -O --edition 2021 driver.rs -o ../build/driver )
tools/dump.sh build/d.json
tools/native.sh
tools/dump.sh build/polimec.json polimec
tools/native.sh polimec
tools/dump.sh build/fund.json fund
tools/native.sh fund
tools/dump.sh build/stake.json stake
tools/native.sh stake
tools/dump.sh build/recv.json recv
tools/native.sh recv
