#!/bin/bash
# runh.sh harness first count time params...
H=$1; F=$2; N=$3; T=$4; shift 4
EXE=$(ls ${SIM_BUILD:-/verif/build}/*/$H 2>/dev/null| head -1)
rm -f /tmp/rh.*.out
for w in 0 1 2 3 4 5 6 7; do $EXE --first $((F+w)) --stride 8 --count $(((N+7)/8)) --time $T --limit 60 --stop-after 3 --out /tmp/rh.$w.out --cpu $w $(for p in "$@"; do echo --param $p; done) >/tmp/rh.$w.err 2>&1 & done; wait
python3 - <<'P'
import json,glob
from collections import Counter
rs=[json.loads(l,strict=False) for f in glob.glob('/tmp/rh.*.out') for l in open(f,errors='replace')]
print(len(rs),'runs', Counter((r['status'],r['cls']) for r in rs))
c=Counter()
for r in rs:
    for k,v in r['cnt'].items(): c[k]+=v
print(dict(c))
if rs: print('max events',max(r['events'] for r in rs),'avg ms',sum(r['ms'] for r in rs)/len(rs),'max ms',max(r['ms'] for r in rs),'threads',max(r['threads'] for r in rs))
seen=set()
for r in sorted(rs,key=lambda r:r['events']):
    if r['status'] not in (1,3) and r['cls'] not in seen:
        seen.add(r['cls']); print('SEED',r['seed'],r['cls']); print(r['msg'][:2500])
P
