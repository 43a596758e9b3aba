#!/bin/bash
# seedcheck.sh ID... : confirm planted changes (applies, builds, stable tests pass, demo fails with it, check catches it); by hand only
cd /repo || exit 1
for s in "$@"; do
  D=/verif/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git apply $D/patch.diff || { echo "$s NOAPPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "$s BUILD FAILED"
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/so.json >/tmp/so.log 2>&1
  T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/so.json'))
print(sorted(set(b['stable'])-set(o['passed'])) or 'tests-ok')"); fi
  timeout 300 bash $D/demo.sh >/tmp/sd.log 2>&1; R=$?
  ( cd /verif; timeout 900 python3 check.py $P > /tmp/sc.log 2>&1 ); C=$?
  git checkout -q -- .; 
  python3 - "$s" "$P" "$C" <<'PY'
import json,sys
f='/verif/tools/caught.json'
try: d=json.load(open(f))
except OSError: d={}
d[sys.argv[1]]=sys.argv[2] if sys.argv[3]=='1' else 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
PY
  echo "$s [$P] $T demo=$R check=$C $(grep -m1 VIOLATION /tmp/sc.log)"
done
bash /opt/vp/build.sh >/tmp/sb.log 2>&1
for s in "$@"; do timeout 300 bash /verif/seeded/$s/demo.sh >/tmp/sd0.log 2>&1 || { echo "$s demo FAILS on unchanged"; tail -5 /tmp/sd0.log; }; done
