#!/bin/bash
# check.sh <property> <quick|thorough> [svdmon options]
# check.sh --replay <replay file>      reruns one reported case
# Builds the monitors against /repo's working tree and runs one check.
# Exit 0: held; 1: violated (VIOLATION line printed); 2: the check could not decide.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/.build" CARGO_NET_OFFLINE=true
mkdir -p "$here/.build" "$here/evidence"
if [ "$1" = --replay ]; then
    f=$2
    id=$(sed -n 's/^check: //p' "$f" | head -1)
    tier=$(sed -n 's/^tier: //p' "$f" | head -1)
    seed=$(sed -n 's/^seed: //p' "$f" | head -1)
    case=$(sed -n 's/^case: //p' "$f" | head -1)
    extra=(--only "$case")
else
    id=$1
    tier=${2:-quick}
    seed=${VERIF_SEED:-1}
    shift 2
    extra=("$@")
fi
[ -n "$id" ] || { echo "usage: check.sh <property> <quick|thorough>" >&2; exit 2; }
build() {
    ( flock 9; cd "$1" && cargo build --offline --quiet --message-format short ) 9>"$here/.build/lock" 2>"$here/.build/$2.log"
}
if ! build "$here/harness" harness; then
    grep -E 'error' "$here/.build/harness.log" | head -20
    echo "check.sh: the monitors do not build against this tree" >&2
    exit 2
fi
exec "$here/.build/debug/svdmon" run "$id" --tier "$tier" --seed "$seed" --verif "$here" "${extra[@]}"
