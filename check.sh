#!/bin/bash
# check.sh PID [quick|thorough]: builds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
pid=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true
mkdir -p evidence
log=evidence/.build-$pid.log
if ! (cd harness && timeout 800 cargo build --offline) >"$log" 2>&1; then
    echo "INCONCLUSIVE: property=$pid the harness does not build against /repo:"
    grep -E '^error' -A5 "$log" | head -40
    exit 2
fi
rm -f "$log"
exec harness/target/debug/harness check "$pid" "$tier" "$seed" "$PWD"
