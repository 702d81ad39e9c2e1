#!/bin/bash
# usage: check.sh PROPERTY TIER
# Builds the harness against /repo's working tree and runs the monitors of one property.
# Exit: 0 held, 1 violation, 2 inconclusive (build failure, harness error, starved monitors).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
crate=$(bash "$here/crate-of.sh" "$id")
log=$here/run/build-$crate-$$.log
mkdir -p "$here/run"
cd "$here/$crate" || exit 2
if ! cargo build --locked --offline >"$log" 2>&1; then
    # A second attempt guards against transient failures (e.g. a concurrent build).
    if ! cargo build --locked --offline >"$log" 2>&1; then
        grep -E '^error' -A8 "$log" | head -60
        echo "BUILD-ERROR: cannot build the harness" >&2
        exit 2
    fi
fi
rm -f "$log"
ulimit -c 0
ulimit -v "${VH_VMEM:-3000000}"
export VERIF_DIR=$here
exec "./target/debug/${VH_BIN:-$(basename "$crate" | sed 's/^harness$/vh/')}" check "$id" "$tier"
