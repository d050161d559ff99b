# sourced by the check scripts: pinned toolchain, flags and target directory
export HOME="${HOME:-/root}"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="--cfg algorsand_verif -A warnings -A unexpected_cfgs -W dependency_on_unit_never_type_fallback"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export VERIF_TARGET="$VERIF_DIR/target"
build_harness() {
    mkdir -p "$VERIF_TARGET"
    rm -f "$VERIF_TARGET/stub-hit"
    cargo build --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
        --target-dir "$VERIF_TARGET" >"$VERIF_TARGET/build.log" 2>&1 && return 0
    tail -60 "$VERIF_TARGET/build.log" >&2
    # a hook that no longer fits the code around it must not silence the checks that do without it
    python3 "$VERIF_DIR/tools/stub_hooks.py"
}
# the real program, without hooks
build_tool() {
    RUSTFLAGS="-A warnings" cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin algokey \
        --target-dir "$VERIF_TARGET/algokey" >"$VERIF_TARGET/tool.log" 2>&1 && return 0
    tail -60 "$VERIF_TARGET/tool.log" >&2
    return 1
}
# sanitized builds of the monitor: standard library included; and its build for the interpreter
san_env() {
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu XDG_CACHE_HOME="$VERIF_TARGET/cache"
    VH_FLAGS="--cfg algorsand_verif --cfg vh_san --cfg crossbeam_sanitize --cfg crossbeam_sanitize_thread -A warnings"
}
build_sanitized() { # thread | address
    ( san_env
      mkdir -p "$VERIF_TARGET"
      RUSTFLAGS="$VH_FLAGS -Zsanitizer=$1" cargo build --offline --locked --features soft -Zbuild-std --target x86_64-unknown-linux-gnu \
          --manifest-path "$VERIF_DIR/harness/Cargo.toml" --target-dir "$VERIF_TARGET/$1" >"$VERIF_TARGET/$1.log" 2>&1 && exit 0
      tail -60 "$VERIF_TARGET/$1.log" >&2
      exit 1 )
}
# the interpreter runs the program right after building it; here it only shows its usage
build_interpreted() {
    ( san_env
      export RUSTFLAGS="$VH_FLAGS" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
      cargo miri run --offline --locked --features soft --manifest-path "$VERIF_DIR/harness/Cargo.toml" --target-dir "$VERIF_TARGET/miri" \
          -- --list >"$VERIF_TARGET/miri.log" 2>&1 && exit 0
      tail -60 "$VERIF_TARGET/miri.log" >&2
      exit 1 )
}
