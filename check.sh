#!/bin/bash
# usage: check.sh <property> <quick|thorough>       runs the check of one property
#        check.sh build                             only builds the checker against /repo's working tree
#        check.sh replay <file>                     runs the case of a replay file again
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export RUSTC_WRAPPER="$VERIF_DIR/mc/rustc-wrap"
unset RUST_LOG CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS RAYON_NUM_THREADS
cd "$VERIF_DIR/mc" || exit 2
log=$(mktemp)
# if the crate does not build against mcstd, it is built against std: its locks of parking_lot remain scheduling points
if ! cargo build --offline >"$log" 2>&1 && ! MC_PLAIN_STD=1 cargo build --offline >"$log" 2>&1; then
    echo "check.sh: the checker does not build" >&2
    grep -E '^error' -A 12 "$log" | head -60 >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec ./target/debug/mc --replay "$(cd "$OLDPWD" && realpath "$2")" ;;
    *) exec ./target/debug/mc "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
