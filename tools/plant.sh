#!/bin/bash
# Confirms a planted bug in a scratch copy: demo passes clean, fails patched; tests still pass; reports what the check says.
# usage: tools/plant.sh <id> [notest]       (leaves nothing behind)
V=/verif; ID=$1; D=$V/seeded/$ID; S=/tmp/plant-$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "$S"; cp -a /repo "$S"; cd "$S" || exit 9
git checkout -q -- . ; git apply --check "$D/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf "$S"; exit 1; }
cp -a "$D" "/tmp/demo-$ID"; rm -f /tmp/demo-$ID/patch.diff /tmp/demo-$ID/meta.json
sed 's#/repo#'"$S"'#g' /opt/vp/lib/env.sh > "$S/build/env.sh"; . "$S/build/env.sh"
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/plant-$ID.demo0 2>&1; a=$?
git apply "$D/patch.diff"
if grep -q '^+++ .*\.\(pyx\|pxd\|h\|cpp\)' "$D/patch.diff"; then
  sed 's#/repo#'"$S"'#g' /opt/vp/lib/build_ext.py > "$S/build/b.py"; /opt/venv/bin/python "$S/build/b.py" >/tmp/plant-$ID.build 2>&1 || echo "$ID: BUILD FAILED"
fi
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/plant-$ID.demo1 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
  PYTHONPATH=$S:/opt/vp/lib /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p vp_seed --timeout=600 \
    --continue-on-collection-errors -n ${TESTN:-8} --dist worksteal --tb=line -o junit_family=xunit2 --junitxml=$S/build/j.xml >/tmp/plant-$ID.test 2>&1
  python3 /opt/vp/results.py $S/build/out.json junit:$S/build/j.xml
  t=$(python3 -c "
import json
o=json.load(open('$S/build/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
m=[x for x in b if x not in set(o['passed'])]
print('ok' if not m else 'BROKEN %d: %s'%(len(m),m[:3]))")
fi
cd $V; c=$(VM_REPO=$S ./check.sh $P 2>&1); r=$?
echo "$ID ($P): demo clean=$a patched=$b tests=$t check_exit=$r"; [ -n "$SHOW" ] && echo "$c" | cut -c1-300 | head -${SHOW}
rm -rf "$S" "/tmp/demo-$ID"
