#!/bin/bash
# Usage: check.sh <ID> [--replay FILE]   (ID "build": only builds)
# Rebuilds the harness against /repo's working tree and runs one property's checks.
cd "$(dirname "$0")/harness" || exit 2
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
# cargo judges freshness by mtime, and misses a file replaced by one with an older mtime.
rm -rf target/debug/.fingerprint/perception-eval-* target/debug/.fingerprint/pv-*
log=$(mktemp)
if ! cargo build --offline --quiet >"$log" 2>&1 &&
    ! cargo build --offline --quiet --no-default-features >/dev/null 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "ERROR: the harness does not build; this is not a verdict"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
export PV_ROOT="$(dirname "$PWD")"
# A runaway allocation ends the check's own process instead of using up the sandbox's memory.
ulimit -v 20000000
exec target/debug/pv "$@"
