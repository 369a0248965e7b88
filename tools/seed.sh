#!/bin/bash
# usage: seed.sh ID...  confirms planted bugs in a scratch copy: patch applies, builds, stable tests pass,
# demo passes without and fails with it; then runs the property's check on the patched copy.
root="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  d="$root/seeded/$id"; w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo/. "$w/"
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  dd=$(mktemp -d /tmp/demo.XXXXXX); cp "$d"/* "$dd/"; rm -f "$dd"/*.diff "$dd"/meta.json
  ( cd "$w"; bash "$dd/demo.sh" >"$w.log" 2>&1 ) && a=ok || { a="FAILS-CLEAN"; tail -20 "$w.log"; }
  ( cd "$w"; git apply "$d/patch.diff" ) && b=ok || b=NOAPPLY
  ( cd "$w"; go build ./... && { go test -json -vet=off -count=1 ./... >"$w.log" 2>/dev/null; python3 /opt/vp/results.py "$w.res" "gojson:$w.log" >/dev/null; python3 -c "
import json,sys
p=json.load(open('$w.res'))['passed'];b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in p];print(*m[:6],sep='\n') if m else 0
sys.exit(bool(m))"; } ) && t=ok || t=TESTS-FAIL
  ( cd "$w"; timeout 300 bash "$dd/demo.sh" >"$w.log" 2>&1 ) && c=DEMO-PASSES || c=ok
  [ -n "$SHOW" ] && tail -15 "$w.log"
  v="-"
  if grep -qx "$prop" "$root/tools/claimed.txt"; then
    r=$(mktemp -d /tmp/vr.XXXXXX); cp "$root/known-findings.txt" "$r/"
    out=$(VERIF_REPO="$w" VERIF_ROOT="$r" timeout 900 "$root/bin/checker" "$prop" 2>&1); rc=$?
    if echo "$out" | grep -q "^VIOLATION property=$prop" && [ $rc = 1 ]; then v=CAUGHT; else v="missed(rc=$rc)"; fi
    [ -n "$V" ] && echo "$out" | head -12
    rm -rf "$r"
  fi
  echo "$id $prop clean-demo=$a apply=$b tests=$t bug-demo=$c check=$v"
  rm -rf "$w" "$w.log" "$w.res" "$dd"
done
