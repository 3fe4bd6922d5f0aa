#!/bin/bash
# developer helper: register a property program with defaults and run it
cd /verif; for p in "$@"; do python3 - $p <<'PY'
import json,sys
d=json.load(open('checks.json')); p=sys.argv[1]
d.setdefault(p,{"sources":[p.lower()+".cpp"],"level":"model_checking","rule":"x"}); json.dump(d,open('checks.json','w'),indent=1)
PY
timeout 1800 python3 run.py $p ${TIER:-quick}; done
