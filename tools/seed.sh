#!/bin/bash
# tools/seed.sh take ID        : store /repo's working diff as seeded/ID/patch.diff and revert /repo
# tools/seed.sh test ID        : apply, build, stable tests, demo (must fail), check (reports), revert, rebuild, demo (must pass)
set -u
V=/verif; D=$V/seeded/$2
case $1 in
take) mkdir -p "$D"; git -C /repo diff > "$D/patch.diff"; git -C /repo checkout -- . ; wc -l "$D/patch.diff";;
test)
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  git -C /repo apply "$D/patch.diff" || exit 2
  bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=set(b['stable'])
t=set(json.load(open('/tmp/seed_t.json'))['passed'])
m=b-t
print('TESTS', 'ok' if not m else 'LOST %s'%sorted(m)[:5])
P
  (cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/seed_d.log 2>&1); echo "DEMO patched rc=$? (want nonzero): $(tail -1 /tmp/seed_d.log)"
  (cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vk/run.py $prop quick >/tmp/seed_c.log 2>&1); echo "CHECK $prop rc=$? (want 1): $(grep VIOLATION /tmp/seed_c.log | head -1)"
  python3 - "$2" "$D" <<'P'
import json,sys,os
rf='/verif/tools/seed_results.json'; r=json.load(open(rf)) if os.path.exists(rf) else {}
m=json.load(open(sys.argv[2]+'/meta.json')); c='VIOLATION property=%s '%m['property'] in open('/tmp/seed_c.log').read()
r[sys.argv[1]]=dict(property=m['property'],needs=m['needs'],caught='yes' if c else 'NO'); json.dump(r,open(rf,'w'),indent=1,sort_keys=True)
P
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1
  (cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/seed_d.log 2>&1); echo "DEMO clean rc=$? (want 0): $(tail -1 /tmp/seed_d.log)";;
esac
