export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never SKIP_WASM_BUILD=1 CARGO_INCREMENTAL=0
export RUSTC=$(rustup which rustc --toolchain nightly)
export LD_LIBRARY_PATH=$(dirname $RUSTC)/../lib
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
# crates of the code under verification: always rebuilt from the working tree
fresh() { for c in pallet-democracy pallet-elections-phragmen on-slash-vesting macros vharness pallet-linear-release pallet-proxy-bonding pallet-parachain-staking pallet-dispenser polimec-receiver pallet-funding polimec-common; do rm -rf "$1"/debug/.fingerprint/$c-*; done; }
