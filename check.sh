#!/bin/bash
# check.sh ID [tier]: rebuilds the harness (and what it tests) from /repo's working tree, then decides property ID
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}
./build.sh "$id" >&2 || { echo "build failed" >&2; exit 3; }
exec timeout -k 5 ${VH_TIMEOUT:-$([ "$tier" = thorough ] && echo 7200 || echo 840)} target/debug/vh check "$id" "$tier"
