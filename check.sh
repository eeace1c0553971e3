#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current working tree.
# Exit 0: it held. Exit 1 and a VIOLATION line: it is broken. Anything else: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
mode=
bin="$here/sim/target/release/bdsim"
if [ "$id" = C14 ]; then
    mode=debug
    export BDSIM_PLAIN="$here/sim/target/release/bdsim"
    bin="$here/sim/target-debug/release/bdsim"
fi
bash "$here/build.sh" $mode || exit 2
mkdir -p "$here/evidence" "$here/replays"
cd "$here" || exit 2
"$bin" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --evidence "$here/evidence/$id.json" --replays "$here/replays" --known "$here/known-findings.txt"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*) exit 2 ;;
esac
