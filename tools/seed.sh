#!/bin/bash
# tools/seed.sh ID [PROP...] : validates the planted bug ID (applies, builds,
# stable tests, demo) and runs the quick checks named in its meta.json (or the
# given ones) against it. Restores /repo.
S=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"; fi
git -C /repo apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/build.log; }
(cd /repo; bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $? (want nonzero)")
bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/test.log 2>&1
python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
m=set(b['stable'])-set(o.get('passed',o.get('pass',[])))
print("stable tests:", "OK" if not m else "FAILING %s"%sorted(m)[:5], len(b['stable']))
Q
fi
for p in $P; do
 timeout 900 bash /verif/run.sh $p quick > /tmp/seed_$p.log 2>&1; rc=$?
 echo "check $p: exit $rc  $(grep -c '^VIOLATION' /tmp/seed_$p.log) violations, $(grep -m1 '^violation in' /tmp/seed_$p.log | cut -c1-220)"
done
