#!/bin/bash
# Builds the simulation harness from /repo's working tree into $1.
set -euo pipefail
mkdir -p "$1"; OUT=$(cd "$1" && pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export GOCACHE=${VERIF_GOCACHE:-$HERE/.build/gocache}
export GOFLAGS=-buildvcs=false
mkdir -p "$OUT" "$GOCACHE"
cat > "$OUT/rw.json" <<J
{"Replace": {"$REPO/zzverif/rewrite/main.go": "$HERE/sim/rewrite/main.go"}}
J
cd "$REPO"
go build -overlay "$OUT/rw.json" -o "$OUT/rewrite" ./zzverif/rewrite
"$OUT/rewrite" -repo "$REPO" -z "$HERE/sim/z" -out "$OUT" -bridge "$HERE/sim/bridge"
go build -overlay "$OUT/overlay.json" -o "$OUT/harness" ./zzverif/harness
# export data of the standard packages that instrumented projects may import
go list -export -f '{{.ImportPath}} {{.Export}}' bufio bytes context encoding/binary encoding/json errors fmt io maps math \
	net/http os reflect runtime slices sort strconv strings sync sync/atomic testing time unicode/utf8 > "$OUT/std.txt"
