# sourced: the environment every build of the simulator uses
export HOME="${HOME:-/root}"
export RUSTC_WRAPPER="${PGDST_SIM:-/verif/sim}/wrapper.sh"
export CARGO_TARGET_DIR="${PGDST_TARGET:-/verif/sim/target}"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
