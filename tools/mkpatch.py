#!/usr/bin/env python3
"""Developer tool: mkpatch.py ID <<< python list of (file, old, new). Writes seeded/ID/patch.diff."""
import subprocess, sys, os
id=sys.argv[1]; edits=eval(sys.stdin.read())
if isinstance(edits, tuple): edits=[edits]
os.makedirs('/verif/seeded/%s'%id, exist_ok=True)
assert not subprocess.check_output(['git','-C','/repo','status','--porcelain','-uno'])
try:
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,'w').write(s.replace(old,new))
    d=subprocess.check_output(['git','-C','/repo','diff']); open('/verif/seeded/%s/patch.diff'%id,'wb').write(d)
finally:
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
if not os.path.exists('/verif/seeded/%s/demo.sh'%id):
    import shutil; shutil.copy('/verif/tools/demo_template.sh','/verif/seeded/%s/demo.sh'%id)
