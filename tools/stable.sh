#!/bin/bash
# build + stable tests of /repo; prints the stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/t.json'))['passed'])
print(len(p),'passed; missing:',[x for x in b if x not in p][:10])"
git -C /repo status --short | head -5
