#!/bin/bash
# Builds everything once, from the committed files.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
(cd harness && cargo build --offline)
(cd sched && RUSTFLAGS="--cfg mirror_mirror_model_check" CARGO_TARGET_DIR="$PWD/../target/sched" cargo build --offline)
