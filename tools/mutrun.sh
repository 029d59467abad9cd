#!/bin/bash
# mutrun.sh CHECK < python edits
cd /tmp/mut && rsync -rlc --delete /repo/cartographer/ /tmp/mut/repo/cartographer/ && rsync -rlc --delete /repo/configuration_files/ /tmp/mut/repo/configuration_files/
python3 -c "
edits=eval(open('/dev/stdin').read())
if isinstance(edits,tuple): edits=[edits]
for f,o,n in edits:
    p='/tmp/mut/repo/'+f; s=open(p).read(); assert s.count(o)>=1,(f,s.count(o)); open(p,'w').write(s.replace(o,n,1))
" || exit 2
cd /verif; for c in "$@"; do SIM_REPO=/tmp/mut/repo SIM_BUILD=/tmp/mut/build timeout 900 python3 check.py $c quick 2>&1 | grep -v "^  *called" | tail -${TAIL:-8}; done
