#!/bin/bash
# bash /verif/check.sh <ID> <quick|thorough>   build the explorer against /repo's working tree and run one check
# bash /verif/check.sh case <ID> <tier> <suite> <index>   replay one case
# bash /verif/check.sh build
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$DIR/mc/target"
export MC_VERIF="$DIR"
unset RUSTFLAGS
LOG="$DIR/mc/target/build.log"
mkdir -p "$DIR/mc/target"
if ! (cd "$DIR/mc" && cargo build --release --offline --locked >"$LOG" 2>&1); then
    echo "build of the explorer failed (this is an error of the check, not a verdict):" >&2
    tail -n 40 "$LOG" >&2
    exit 2
fi
case "${1:-}" in
build) exit 0 ;;
case) shift; exec "$CARGO_TARGET_DIR/release/mc" case "$@" ;;
list) exec "$CARGO_TARGET_DIR/release/mc" list ;;
*) exec "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-quick}" ;;
esac
