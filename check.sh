#!/bin/bash
# usage: check.sh C01..C20 quick|thorough
# Builds the simulator against the working tree of /repo and runs the check from /verif.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg dendron_sim -Awarnings"
export CARGO_TARGET_DIR="$PWD/sim/target"
cargo build --offline --quiet --manifest-path sim/Cargo.toml || { echo "the simulator does not build"; exit 2; }
cargo build --offline --quiet --release --manifest-path sim/Cargo.toml || { echo "the simulator does not build"; exit 2; }
bins=("$CARGO_TARGET_DIR/debug/sim" "$CARGO_TARGET_DIR/release/sim")
# A defect may eat memory: a process that does dies alone.
ulimit -v 8000000
ulimit -c 0
exec "${bins[0]}" check "$prop" "$tier" "$seed" "${bins[@]}"
