#!/bin/bash
# bash check.sh build | ID [SUB] | replay FILE | list
# Builds the harness against /repo's current tree, then runs it.
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 no verdict.
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
cd "$VERIF_DIR/harness" || exit 2
# Cargo compares mtimes only: drop the fingerprints of /repo's crate, so that a
# file restored with an older mtime is noticed.
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/magog-*
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    echo "check.sh: the harness does not build against /repo: no verdict" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
# A runaway allocation ends the check's child process, not the machine.
ulimit -v 24000000 2>/dev/null
ulimit -c 0
bin="$CARGO_TARGET_DIR/release/harness"
case "$1" in
    list) exec "$bin" list ;;
    replay) exec "$bin" replay "$2" ;;
    *) exec "$bin" check "$@" ;;
esac
