#!/bin/bash
# tools/seed.sh ID [notest]: applies seeded/ID to /repo, runs demo, stable tests and the check, undoes it
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "/repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "$ID demo clean: $?"
git apply $D/patch.diff || { echo "$ID patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/demo1.log 2>&1; echo "$ID demo patched: $?"
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
st=b.get('stable') or b.get('passed') or b
p=set(o.get('passed',[]))
print('stable tests broken:', [t for t in st if t not in p][:5])
PY
fi
/verif/check.sh $P quick | grep -v '^KNOWN' ; echo "$ID check $P: ${PIPESTATUS[0]}"
