#!/bin/bash
# bug.sh new ID            : scratch copy of /repo in /tmp/bug/ID to edit
# bug.sh keep ID PROP TEST : confirm (builds, tests pass, demo 0/non-zero) and keep it in seeded/ID
#                            (seeded/ID/demo_test.go.txt or demo.sh must exist)
# bug.sh check ID [PROPS]  : apply it in a scratch copy and run the checks against it
H=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
id=$2; W=/tmp/bug/$id; S=$H/seeded/$id
case $1 in
new) rm -rf "$W"; mkdir -p /tmp/bug "$S"; cp -a /repo "$W"; git -C "$W" checkout -q -- .; echo "$W";;
keep)
	[ -d "$W" ] && git -C "$W" diff > "$S/patch.diff"
	[ -s "$S/patch.diff" ] || { echo "no patch"; exit 1; }
	if [ ! -f "$S/demo.sh" ]; then
	cat > "$S/demo.sh" <<'D'
#!/bin/bash
# Runs the demonstration beside this file as a test of the lens package in $PWD.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\"Replace\":{\"$PWD/lens/zz_demo_test.go\":\"$D/demo_test.go.txt\"}}" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 200s -run '^TestZZDemo$' ./lens
D
	chmod +x "$S/demo.sh"; fi
	rm -rf "$W"; cp -a /repo "$W"; cd "$W" && git checkout -q -- . && git apply "$S/patch.diff" || exit 1
	go build ./... || exit 1
	(cd /repo && bash "$S/demo.sh" > /tmp/bug/$id.d0 2>&1); a=$?
	bash "$S/demo.sh" > /tmp/bug/$id.d1 2>&1; b=$?
	echo "demo: unchanged=$a patched=$b"; [ $a = 0 ] || tail -20 /tmp/bug/$id.d0
	[ $b != 0 ] && grep -v '^ok\|^FAIL$' /tmp/bug/$id.d1 | tail -8
	go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/bug/$id.json
	python3 /opt/vp/results.py /tmp/bug/$id.res "gojson:/tmp/bug/$id.json" >/dev/null
	python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/bug/%s.res'%sys.argv[1]))
p=set(r.get('passed',r.get('pass',[])))
miss=[t for t in b if t not in p]
print("stable tests failing:",len(miss),miss[:5])
P
	rm -rf "$W";;
check)
	rm -rf "$W"; cp -a /repo "$W"; git -C "$W" checkout -q -- .; git -C "$W" apply "$S/patch.diff" || exit 1
	shift 2
	P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
	O=/tmp/bug/$id.out
	VERIF_REPO=$W VERIF_GOCACHE=$H/.build/gocache "$H/build.sh" "$O" > "$O.log" 2>&1 || { echo "$id BUILD FAILED"; tail "$O.log"; exit 2; }
	C=""
	for p in $P; do
		s=$(date +%s)
		"$O/harness" -prop $p -tier ${VERIF_TIER:-quick} -seed ${VERIF_SEED:-1} -evidence /tmp/bug/$id.ev.json -replays /tmp/bug/$id.replays -known "$H/known-findings.json" > /tmp/bug/$id.$p.txt 2>&1; r=$?
		[ $r = 1 ] && C="$C $p"
		echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/bug/$id.$p.txt)"
	done
	echo ${C:-not caught} > "$S/caught.txt"
	rm -rf "$W" "$O";;
esac
