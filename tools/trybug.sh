#!/bin/bash
# Developer tool: takes the planted bug seeded/$1 through build, tests, demo and
# the checks named after it (default: its own property). Leaves /repo as it was.
set -u
cd /verif
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
shift
CHECKS=${*:-$P}
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
if [ "${SKIPCLEAN:-}" != 1 ]; then
  bash /opt/vp/build.sh >/tmp/trybug.build 2>&1
  (cd /repo && timeout 300 bash $D/demo.sh) >/tmp/trybug.demo0 2>&1; echo "demo on clean tree: $? (want 0)"
fi
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -- . ' EXIT
if bash /opt/vp/test.sh /tmp/trybug.json >/tmp/trybug.build 2>&1; then :; fi
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trybug.json'))
names=b.get('stable') or b.get('passed') or b.get('tests') or []
p=set(r['passed']); miss=[n for n in names if n not in p]
print('baseline tests not passing: %d of %d %s'%(len(miss),len(names),miss[:5]))
P
(cd /repo && timeout 300 bash $D/demo.sh) >/tmp/trybug.demo1 2>&1; echo "demo with bug: $? (want != 0)"; tail -3 /tmp/trybug.demo1
for c in $CHECKS; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $c quick > /tmp/trybug.check.$c 2>&1; echo "check $c: $? (want 1)"
  grep -E 'VIOLATION|KNOWN' /tmp/trybug.check.$c | head -3; tail -2 /tmp/trybug.check.$c
done
