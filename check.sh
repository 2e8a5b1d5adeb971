#!/bin/bash
# usage: check.sh ID quick|thorough            run the check of property ID
#        check.sh ID replay SECTION:INDEX TIER  re-run one case of it
# exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run
set -u
ID=${1:?usage: check.sh ID TIER}
TIER=${2:-${VERIF_TIER:-quick}}
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
. "$VERIF/lib/env.sh"

WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID.XXXXXX") || exit 2
cleanup() { chmod -R u+rwX "$WORK" 2>/dev/null; rm -rf "$WORK"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
mkdir -p "$WORK/tmp" "$VERIF/evidence/replay"
export TMPDIR="$WORK/tmp" VERIF REPO WORK

SUITE=$(python3 "$VERIF/lib/suites.py" "$ID") || exit 2
python3 "$VERIF/lib/overlay.py" "$REPO" "$VERIF" "$WORK" "$ID" $SUITE || exit 2
cd "$REPO" || exit 2
. "$WORK/build.sh" || { echo "check error: build failed" >&2; exit 2; }

[ -x "$WORK/suite" ] || { echo "check error: build failed" >&2; exit 2; }
cd "$WORK"
if [ "$TIER" = replay ]; then
    "$WORK/suite" -tier "${4:-quick}" -repo "$REPO" -only "${3:?}" ; exit $?
fi
"$WORK/suite" -tier "$TIER" -repo "$REPO" -known "$VERIF/known-findings.json" \
    -evidence "$VERIF/evidence/$ID.json" -replay-out "$VERIF/evidence/replay/$ID.json"
rc=$?
exit $rc
