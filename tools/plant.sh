#!/bin/bash
# plant.sh ID [CHECK...]: applies seeded/ID to /repo, builds, tests, runs the demo, runs the checks, and undoes it
id=$1; shift; d=/verif/seeded/$id; cd /repo
trap 'git -C /repo checkout -q -- .' EXIT
[ -z "$(git status --short)" ] || { echo "repo not clean"; trap - EXIT; exit 2; }
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/plant.out 2>&1 || { echo "$id: demo fails on the clean tree"; cat /tmp/plant.out; exit 1; }; fi
git apply $d/patch.diff || exit 1
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >/tmp/plant.out 2>&1 || { echo "$id: does not build"; tail -20 /tmp/plant.out; exit 1; }
 bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/plant.json'));
s=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
m=[t for t in s if t not in r['passed']]; print(sys.argv[1],'tests', 'ok' if not m else 'BROKEN %s'%m[:5])
P
 if bash $d/demo.sh >/tmp/plant.out 2>&1; then echo "$id: DEMO DOES NOT FAIL"; else echo "$id: demo fails as it should: $(tail -1 /tmp/plant.out)"; fi
fi
for c in "$@"; do (cd /verif; timeout 900 python3 run.py $c quick > /tmp/plant.$c.out 2>&1; e=$?; echo "$id $c exit=$e $(head -1 /tmp/plant.$c.out | cut -c1-230)"); done
