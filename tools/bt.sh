#!/bin/bash
# build + stable tests of /repo; prints counts
bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; echo "test rc=$?"
python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
bl=b.get('passed') or b.get('stable') or b
print('missing', [x for x in bl if x not in o['passed']][:5])"
