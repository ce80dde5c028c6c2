#!/bin/bash
# check.sh <ID> [--tier quick|thorough] [--seed N]   build against /repo's working tree and decide one property
# check.sh replay <file>                             re-run a replay file
# check.sh build                                     only build
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd sim && cargo build --offline --locked) >"$log" 2>&1; then
    tail -n 40 "$log"
    echo "error: the simulator does not build against /repo"
    exit 2
fi
bin=sim/target/debug/noodle-sim
case "$1" in
build) exit 0 ;;
replay) shift; exec "$bin" replay "$@" ;;
*) exec "$bin" check "$@" ;;
esac
