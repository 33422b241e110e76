#!/bin/bash
# native random search of every contract of a property (development aid): nsearch.sh P13 [seconds]
cd "$(dirname "$0")"
python3-vt - "$1" "${2:-3}" <<'PY'
import sys, tempfile, glob, subprocess
sys.path.insert(0,'.'); sys.argv=[sys.argv[0]]+sys.argv[1:]
import run
pid,secs=sys.argv[1],sys.argv[2]
with tempfile.TemporaryDirectory() as tmp:
    for p in sorted(glob.glob('harness/*.cpp')):
        u=run.Unit(p)
        cs=[c for c,x in u.contracts.items() if x['prop']==pid and not x['nonative']]
        if not cs: continue
        exe=run.build_native(u,tmp)
        for c in cs:
            rc,out=run.native(exe,['search',c,'1',secs,tmp+'/out'],60)
            print(c,rc,out.strip()[-200:])
PY
