#!/bin/bash
# Runs the monitor inside the interpreter, in the current directory.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)" HOME="${VH_HOME:-$HOME}"
. "$VERIF_DIR/env.sh"
san_env
export RUSTFLAGS="$VH_FLAGS" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
exec cargo miri run --offline --locked --features soft --quiet --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
    --target-dir "$VERIF_TARGET/miri" -- "$@"
