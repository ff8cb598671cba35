#!/bin/bash
# check.sh <property> [quick|thorough]: builds the harness against /repo's working tree and decides
# the property. Exit 0: holds on everything explored, 1: violated, 2: no answer.
cd "$(dirname "$0")" || exit 2
verif=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$verif/target" MMCHECK_OUT="$verif"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS
mkdir -p "$verif/target" "$verif/evidence" "$verif/replays"
log="$verif/target/build-$id.log"

# fail_build <log>: the harness doesn't build. When the code under test does, it no longer accepts
# the types or calls that the harness is made of, which is a violation.
fail_build() {
    if (cd /repo && CARGO_TARGET_DIR="$verif/target/repo" cargo build -p mirror-mirror --offline >"$log.repo" 2>&1); then
        cp "$1" "$verif/replays/$id-build.log"
        grep -m 5 -A 6 '^error' "$1"
        printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":["the harness no longer compiles"]},"wall_s":0,"violations":1}\n' \
            "$id" "$tier" "${VERIF_SEED:-1}" >"$verif/evidence/$id.json"
        echo "VIOLATION property=$id replay=$verif/replays/$id-build.log"
        exit 1
    fi
    tail -30 "$log.repo"
    echo "the code under test does not build"
    exit 2
}

case $id in
C15)
    # the lock is replaced by a controlled one; where that's not possible (any more), what's left to
    # control is when types are described
    export CARGO_TARGET_DIR="$verif/target/sched"
    (cd sched && RUSTFLAGS="--cfg mirror_mirror_model_check" cargo build --offline) >"$log" 2>&1 \
        || (cd sched && cargo build --offline) >"$log" 2>&1 || fail_build "$log"
    exec "$CARGO_TARGET_DIR/debug/mmsched" "$tier"
    ;;
C23)
    exec python3 tools/derive.py "$tier"
    ;;
C25)
    exec python3 tools/features.py "$tier"
    ;;
*)
    (cd harness && cargo build --offline) >"$log" 2>&1 || fail_build "$log"
    exec "$CARGO_TARGET_DIR/debug/mmcheck" "$id" "$tier"
    ;;
esac
