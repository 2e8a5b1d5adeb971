#!/bin/bash
# build /repo, run its tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { tail -20 /tmp/tb.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/o.json'))['passed']);print('missing',sorted(b-o));exit(len(b-o)>0)"
