#!/bin/bash
# seedtest.sh SEED [CHECK...]: in scratch copies, verify that a planted bug
# applies, builds, passes the stable tests, is told apart by its demo, and
# whether the checks (default: that of its property) report it.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
sd="$here/seeded/$id"
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$sd/meta.json")
w=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/verif"
cp -a "$here"/{check.sh,env.sh,harness,known-findings.txt,properties.jsonl,MANIFEST.json} "$w/verif/"; mkdir "$w/verif/evidence" "$w/verif/replays"
[ -d "$here/corpus" ] && cp -a "$here/corpus" "$w/verif/"
sed -i "s,/repo,$w/repo,g" "$w/verif/env.sh" "$w/verif/harness/go.mod"
cp -a "$sd" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
export GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPROXY=off GOFLAGS=-mod=readonly PATH=/opt/veriftools/go1.27.3/bin:$PATH
demo() { (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") >"$w/demo.$1" 2>&1; echo $?; }
t0=$(demo base)
[ -z "$SEED_NOBASE" ] && [ "$t0" != 0 ] && { echo "$id: DEMO FAILS ON BASE"; tail -20 "$w/demo.base"; exit 1; }
git -C "$w/repo" apply "$sd/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
(cd "$w/repo" && go build ./... && go build -tags no_license ./ripsrc/... ) >"$w/build" 2>&1 || { echo "$id: DOES NOT BUILD"; cat "$w/build"; exit 1; }
if [ -z "$SEED_NOTEST" ]; then
(cd "$w/repo" && go test -json -vet=off -count=1 ./... >"$w/t.jsonl" 2>/dev/null; python3 - "$w/t.jsonl" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
f=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="fail": f.append((e.get("Package"),e.get("Test")))
if f: print("FAILED TESTS",f)
P
) | tee "$w/tests"
fi
t1=$(demo patched)
[ "$t1" = 0 ] && { echo "$id: DEMO PASSES WITH PATCH"; tail -5 "$w/demo.patched"; }
for c in ${@:-$prop}; do
	(cd "$w/verif" && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick TMPDIR=/tmp timeout 900 ./check.sh $c quick >"$w/out.$c" 2>&1); rc=$?
	v=$(grep -c "^VIOLATION property=$c" "$w/out.$c")
	echo "$id: demo base=$t0 patched=$t1; check $c rc=$rc violations=$v $(grep -m1 '^VIOLATION' -B3 "$w/out.$c" | cut -c1-200 | tr '\n' ' ')"
	[ $rc -gt 1 ] && tail -5 "$w/out.$c"
done
