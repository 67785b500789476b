#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay <file>]
# Builds the harness against /repo's working tree and runs the checks of one property.
# exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh <property> [quick|thorough] [--replay file]}
shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift ;; esac
export VERIF_TIER=$TIER VERIF_ROOT=$HERE VERIF_SEED=${VERIF_SEED:-1}
bash "$HERE/build.sh" || exit 2
if [ "$TIER" = thorough ] && [ "$1" != --replay ] && [ "$ID" != C23 ]; then
    # for the coverage-guided search; the rest does without
    bash "$HERE/fuzz.sh" || echo "note: no coverage-guided search" >&2
fi
if [ "$ID" = C23 ]; then
    # the same with fewer features of pkstl
    bash "$HERE/feat/build.sh" || exit 2
fi
exec "$HERE/harness/target/debug/pkstl-verif" "$ID" "$@"
