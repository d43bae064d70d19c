#!/bin/bash
# development helper: build, run the stable tests, commit everything in /repo with the given message
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
grep -i "warning" /tmp/b.log | head
bash /opt/vp/test.sh /tmp/o.json | tail -1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set()
m=passed(b)-passed(o); print('missing',m, len(passed(o))); assert not m and passed(o)
P
git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
