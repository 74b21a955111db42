#!/bin/bash
# fix.sh "<message>": check /repo's stable tests still pass, then commit the working tree of /repo.
cd /repo || exit 1
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/fix-out.json >/dev/null
python3 - <<'PY' || exit 1
import json,sys
o=json.load(open('/tmp/fix-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(o['passed'])
print(len(b['stable'])-len(miss),"of",len(b['stable']),"stable tests pass")
if miss: print(sorted(miss)); sys.exit(1)
PY
[ -n "$1" ] && git commit -qam "$1" && git log --oneline | head -1
