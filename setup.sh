#!/bin/bash
# Builds all the harnesses.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
rc=0
for crate in harness vhx; do
    (cd "$here/$crate" && cargo build --locked --offline -q) || rc=1
done
exit $rc
