#!/bin/bash
# replay.sh FILE: execute the plan of a replay file three times on /repo's current working tree.
# Exit 1: the violation is there (with the same execution hash if the tree is the same). Exit 0: it is not.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
f="$(realpath "$1")"
if grep -q '"property": "C14"' "$f"; then
    bash "$here/build.sh" debug || exit 2
    export BDSIM_PLAIN="$here/sim/target/release/bdsim"
    exec "$here/sim/target-debug/release/bdsim" replay "$f"
fi
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/bdsim" replay "$f"
