#!/bin/bash
# try_seed.sh ID... : in a scratch copy of /repo, demo clean/patched, stable tests, and the property's check
export PATH=$PATH
for ID in "$@"; do
S=/verif/seeded/$ID; W=/tmp/tryseed/$ID; mkdir -p /tmp/tryseed; rm -rf "$W"; cp -a /repo "$W"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/tryseed/demo_$ID; rm -rf "$D"; mkdir -p "$D"; cp "$S"/demo* "$D"
( cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/tryseed/$ID.clean.log 2>&1; echo "$ID [$P] demo clean: $?" )
( cd "$W" && git apply "$S/patch.diff" ) || echo "$ID PATCH FAILS"
( cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/tryseed/$ID.patched.log 2>&1; echo "$ID demo patched: $?" )
if [ -z "$NOTEST" ]; then
sed -e "s#cd /repo#cd $W#; s#-C /repo#-C $W#; s#^export PATH=\$VENV/bin:\$PATH PYTHONPATH=/opt/vp/plugins#export PATH=\$VENV/bin:\$PATH PYTHONPATH=$W:/opt/vp/plugins#; s#^bash /opt/vp/build.sh.*##" /opt/vp/test.sh > /tmp/tryseed/test_$ID.sh
bash /tmp/tryseed/test_$ID.sh /tmp/tryseed/$ID.json >/tmp/tryseed/$ID.test.log 2>&1
python3 - "$ID" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(f'/tmp/tryseed/{sys.argv[1]}.json'))
p=set(r.get('passed') or [k for k,v in r.items() if v=='passed'])
m=sorted(b-p); print(sys.argv[1],'stable tests failing:',m)
P
fi
if [ -z "$NOCHECK" ]; then
cd /verif; for q in ${PROPS:-$P}; do RAMP_REPO=$W VERIF_SEED=1 python3-vt pydv/driver.py $q quick > /tmp/tryseed/$ID.$q.check.log 2>&1; echo "$ID check $q: exit $? $(grep -m2 VIOLATION /tmp/tryseed/$ID.$q.check.log | tr '\n' ' ' | cut -c1-300)"; done
fi
rm -rf "$W" "$D"
done
