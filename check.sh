#!/bin/bash
# check.sh <property> : decides one property on /repo's working tree.
# check.sh --replay <file> : repeats a recorded violation.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE"
OUT=$HERE/.build/out
if ! "$HERE/build.sh" "$OUT" > "$HERE/.build.log" 2>&1; then
	echo "ERROR: cannot build the simulation from the repository:"
	tail -30 "$HERE/.build.log"
	exit 2
fi
if [ "$1" = --replay ]; then
	exec "$OUT/harness" -replay "$2" -v
fi
exec "$OUT/harness" -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
	-evidence "$HERE/evidence/$1.json" -replays "$HERE/replays" -known "$HERE/known-findings.json"
