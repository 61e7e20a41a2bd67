#!/bin/bash
# Builds the simulator once (the checks build again what has changed in /repo).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg dendron_sim -Awarnings" CARGO_TARGET_DIR="$PWD/sim/target"
cargo build --offline --quiet --manifest-path sim/Cargo.toml &&
    exec cargo build --offline --quiet --release --manifest-path sim/Cargo.toml
