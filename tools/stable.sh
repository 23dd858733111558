#!/bin/bash
# dev helper: build, run the stable tests, print what fails
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))['passed'];m=[x for x in b if x not in o];print('stable missing:',m);raise SystemExit(bool(m))"
