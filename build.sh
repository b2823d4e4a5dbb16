#!/bin/bash
# Builds the harness, the program and the fault injection library from the current tree of /repo
# (sourced by check.sh; run by itself as setup_cmd)
_build() {
    export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
    export PATH="/root/.cargo/bin:$PATH"
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_INCREMENTAL=1
    export CARGO_TARGET_DIR=$VERIF_DIR/target CARGO_NET_OFFLINE=true
    export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_OPT_LEVEL=1
    mkdir -p "$CARGO_TARGET_DIR" || return 1
    # cargo decides by mtime whether a crate is stale; make it look again at ours
    rm -rf "$VERIF_DIR"/target/release/.fingerprint/reqtrace-*
    local log=$CARGO_TARGET_DIR/build.log
    cargo build --release --offline --quiet --manifest-path "$VERIF_DIR/harness/Cargo.toml" 2>"$log" &&
    cargo build --release --offline --quiet --manifest-path /repo/Cargo.toml --bin reqtrace 2>>"$log" || {
        tail -50 "$log" >&2; return 1; }
    if [ -f "$VERIF_DIR/shim/shim.c" ]; then
        gcc -shared -fPIC -O1 -Wall -o "$CARGO_TARGET_DIR/shim.so" "$VERIF_DIR/shim/shim.c" -ldl >&2 || return 1
    fi
}
[ -n "${VERIF_DIR:-}" ] || VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
_build
