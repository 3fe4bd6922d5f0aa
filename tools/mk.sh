#!/bin/bash
# developer helper: build the checker of one property into /tmp/vb-<prop>/check and leave it there
cd /verif; python3 - "$1" <<'PY'
import sys; sys.argv=["run.py"]+sys.argv[1:]; sys.path.insert(0,'/verif')
import run,json,os,shutil
prop=sys.argv[1]; b="/tmp/vb-"+prop; shutil.rmtree(b,ignore_errors=True); os.makedirs(b)
orig=run.subprocess.run
class Stop(Exception): pass
def fake(cmd,**k):
    if cmd[0].endswith("/check"): raise Stop
    return orig(cmd,**k)
run.subprocess.run=fake
try: run.check(prop,"quick",1,json.load(open('/verif/checks.json'))[prop],b,0)
except Stop: print(b+"/check --spec "+b+"/spec")
PY
