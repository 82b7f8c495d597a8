#!/bin/bash
# seed.sh ID [PROPERTY...]: validates the planted change seeded/ID in a scratch
# copy of /repo and runs checks (default: its own property's) against it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
s=$V/seeded/$id
[ -f "$s/patch.diff" ] || { echo "no $s"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir "$w/demo"; cp -a "$s"/. "$w/demo/"; rm -f "$w/demo/meta.json" "$w"/demo/*.diff
cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
git checkout -q -- .
demo() { (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.out" 2>&1); }
if [ -z "$NODEMO" ]; then
demo; [ $? = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -20 "$w/demo.out"; exit 1; }
fi
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(GOFLAGS=-mod=mod go build -o /dev/null ./... && cd vancap && GOFLAGS=-mod=mod go build -o /dev/null ./...) || { echo "$id: does not build"; exit 1; }
if [ -z "$NODEMO" ]; then
GOFLAGS=-mod=mod go test -short -vet=off -count=1 ./... >"$w/t.out" 2>&1 || { echo "$id: existing tests fail"; grep -- "--- FAIL\|FAIL" "$w/t.out" | head; exit 1; }
demo && { echo "$id: demo passes with the change"; exit 1; }
fi
rc=0
for p in ${@:-$prop}; do
  t0=$SECONDS
  VF_REPO=$w/repo VF_EVIDENCE=$w/ev python3 $V/run.py $p >"$w/c.out" 2>&1; r=$?
  case $r in 1) echo "$id: $p CAUGHT ($((SECONDS-t0)) s) $(head -c ${SHOW:-150} "$w/c.out" | tr '\n' ' ')";; *) echo "$id: $p missed rc=$r ($((SECONDS-t0)) s)"; [ $r = 2 ] && tail -5 "$w/c.out"; rc=1;; esac
done
exit $rc
