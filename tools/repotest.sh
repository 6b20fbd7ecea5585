#!/bin/bash
# build the repository and compare its tests with the stable baseline (development aid)
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x,k):
    return set(x[k]) if isinstance(x.get(k),list) else set()
pb=names(b,'passed') or names(b,'stable') or set(next(v for v in b.values() if isinstance(v,list)))
po=names(o,'passed')
print('baseline',len(pb),'passed now',len(po),'missing',sorted(pb-po)[:10])
P
