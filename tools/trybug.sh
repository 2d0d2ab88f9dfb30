#!/bin/bash
# tools/trybug.sh <seed-dir>: in a scratch copy, apply patch, run demo (clean and patched) and the stable tests
# NOTE: the test runner works on /repo only, so this bind-free variant swaps the patch in /repo and restores it.
set -u
S=$(realpath "$1"); ID=$(basename "$S")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
D=$(mktemp -d /tmp/demo.XXXX); cp -r "$S"/. "$D"; rm -f "$D"/patch.diff "$D"/meta.json
(cd /repo && timeout 300 bash "$D/demo.sh" >"$D/clean.log" 2>&1); RC0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: build failed"
(cd /repo && timeout 300 bash "$D/demo.sh" >"$D/bug.log" 2>&1); RC1=$?
echo "$ID: demo clean=$RC0 (want 0) patched=$RC1 (want !=0)"
[ $RC0 = 0 ] || tail -5 "$D/clean.log"
[ $RC1 != 0 ] || tail -5 "$D/bug.log"
if [ "${2:-}" != nocheck ] && [ "${2:-}" != testonly ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /verif && ./run_check.sh $P > "$D/check.log" 2>&1); echo "$ID: check $P exit $? : $(grep -c VIOLATION $D/check.log) $(grep -m1 failed: $D/check.log | cut -c1-200)"
fi
if [ "${2:-}" != notest ] && [ "${2:-}" != nocheck ]; then
  bash /opt/vp/test.sh "$D/t.json" >"$D/t.log" 2>&1
  python3 - "$D/t.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
p=set(t.get('passed', t.get('pass', [])))
print('  stable tests broken:', sorted(b-p)[:8], len(b-p))
P
fi
rm -rf "$D"
