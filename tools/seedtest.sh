#!/bin/bash
# seedtest.sh ID...: for each planted bug, confirm (in a scratch copy of /repo)
# that it applies, builds, passes the tests, that its demo tells the two trees
# apart, and report what the check of its property says.
. /tmp/env.sh 2>/dev/null
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a "${MUT_REPO:-/repo}" "$W/r"
  out="$id $prop:"
  git -C "$W/r" apply "$S/patch.diff" || { echo "$out does not apply"; rm -rf "$W"; continue; }
  (cd "$W/r" && go build ./...) || { echo "$out does not build"; rm -rf "$W"; continue; }
  if [ -z "${SKIP_DEMO:-}" ]; then
  (cd "$W/r" && go test -json -vet=off -count=1 ./... > "$W/t.json" 2>/dev/null)
  python3 - "$W/t.json" <<'P' && out="$out tests-pass" || out="$out TESTS-FAIL"
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'/'+d['Test'])
miss=b-ok
if miss: print(miss)
sys.exit(1 if miss else 0)
P
  mkdir "$W/d"; cp -a "$S"/. "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
  (cd "${MUT_REPO:-/repo}" && bash "$W/d/demo.sh" > "$W/d0" 2>&1) && out="$out demo-ok" || { out="$out DEMO-FAILS-UNPATCHED"; tail -20 "$W/d0"; }
  (cd "$W/r" && bash "$W/d/demo.sh" > "$W/d1" 2>&1) && out="$out DEMO-PASSES-PATCHED" || { out="$out demo-detects"; grep -m3 -E 'demo_test.go|panic|DEMO' "$W/d1"; }
  fi
  if [ -z "${SKIP_CHECK:-}" ]; then
  VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$W/r "$V/check.sh" "$prop" > "$W/c" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "$W/c"; then out="$out CAUGHT"; grep -m2 '^violation' "$W/c" | cut -c1-220; else out="$out MISSED(rc=$rc)"; tail -3 "$W/c"; fi
  fi
  echo "$out"
  rm -rf "$W"
done
