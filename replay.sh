#!/bin/bash
# replay.sh ID FILE: reproduces a saved violation.
cd "$(dirname "$0")" || exit 2
. ./env.sh
(cd sim && cargo build --offline -q 2>/dev/null) || { echo "harness build failed" >&2; exit 2; }
exec sim/target/debug/tketsim replay "$1" "$2"
