#!/bin/bash
# check.sh ID: builds the harness from /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION printed; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
log=$(mktemp)
if ! (cd sim && cargo build --offline -q) >"$log" 2>&1; then
    grep -E -A12 '^error' "$log" | head -60 >&2
    rm -f "$log"
    echo "harness build failed" >&2
    exit 2
fi
rm -f "$log"
exec sim/target/debug/tketsim check "$1"
