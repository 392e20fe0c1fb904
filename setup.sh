#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd sim && cargo build --offline -q
