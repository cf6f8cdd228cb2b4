#!/bin/bash
# dev tool: seedtest.sh ID [nocheck]  -- confirm a planted bug in a scratch copy, and see whether its check catches it
ID=$1; D=${SEEDED:-/verif/seeded}/$ID; S=/tmp/seed_$ID
rm -rf "$S"; cp -a /repo "$S" || exit 9
rundemo() { mkdir -p /tmp/demo_$ID; cp -r "$D"/. /tmp/demo_$ID/; rm -f /tmp/demo_$ID/*.diff /tmp/demo_$ID/meta.json; (cd "$S" && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/demo_$ID.out 2>&1); local r=$?; rm -rf /tmp/demo_$ID; return $r; }
T0=$(date +%s)
rundemo; A=$?
T1=$(date +%s)
[ $A = 0 ] || { echo "$ID: demo FAILS on clean tree ($A)"; tail -5 /tmp/demo_$ID.out; }
(cd "$S" && git apply --check "$D/patch.diff" && git apply "$D/patch.diff") || { echo "$ID: patch does not apply"; exit 8; }
rundemo; B=$?
T2=$(date +%s)
if [ $B = 0 ]; then echo "$ID: demo does NOT fail with the patch"; fi
tail -2 /tmp/demo_$ID.out
mkdir -p /tmp/vp_$ID; sed "s#/repo#$S#g; s#/opt/vp/reports#/tmp/vp_$ID/rep#; s#/opt/vp/env.sh#/tmp/vp_$ID/env.sh#" /opt/vp/test.sh > /tmp/vp_$ID/test.sh; sed "s#/repo#$S#g" /opt/vp/env.sh > /tmp/vp_$ID/env.sh
bash /tmp/vp_$ID/test.sh /tmp/vp_$ID/out.json >/tmp/vp_$ID/log 2>&1
python3 - /tmp/vp_$ID/out.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed') or r.get('pass') or [])
bad=[t for t in st if t not in p]
print('  stable tests:', 'all pass' if not bad else 'FAIL %s'%bad)
P
rm -rf /tmp/vp_$ID
echo "$ID: demo clean=$A ($((T1-T0))s) patched=$B ($((T2-T1))s)"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" != nocheck ]; then
  cd "${CHK:-/verif}"; SECONDS=0
  VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$S ./check $P --no-min > /tmp/chk_$ID.out 2>&1; R=$?
  echo "$ID: check $P exit=$R ${SECONDS}s"; grep -E 'VIOLATION' -A1 /tmp/chk_$ID.out | head -3
fi
rm -rf "$S"
