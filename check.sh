#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's working tree and check one property.
cd "$(dirname "$0")" || exit 70
[ -n "$2" ] && export VERIF_TIER="$2"
log=$(mktemp)
if ! (cd sim && cargo build --release --offline --quiet) >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "the simulator does not build against /repo"
    exit 70
fi
rm -f "$log"
exec sim/target/release/csim check "$1"
