#!/bin/bash
# Builds the monitor against /repo's current tree (hooks on) and runs one property's check.
# usage: check.sh <property id>      (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
build_harness || { echo "INCONCLUSIVE property=$1 the harness does not build"; exit 2; }
if [ "$1" = C29 ]; then
    build_tool || { echo "INCONCLUSIVE property=$1 the program does not build"; exit 2; }
fi
if [ "$1" = C31 ]; then
    build_sanitized thread & t=$!
    build_sanitized address & a=$!
    build_interpreted & m=$!
    wait $t && wait $a && wait $m || { echo "INCONCLUSIVE property=$1 a sanitized build fails"; exit 2; }
    export VH_TSAN="$VERIF_TARGET/thread/x86_64-unknown-linux-gnu/debug/vharness" \
        VH_ASAN="$VERIF_TARGET/address/x86_64-unknown-linux-gnu/debug/vharness" VH_MIRI="$VERIF_DIR/miri.sh" VH_HOME="$HOME"
else
    # the trie walks its keys recursively, with large frames in unoptimised builds
    ulimit -s 262144 2>/dev/null
fi
exec "$VERIF_TARGET/debug/vharness" "$1"
