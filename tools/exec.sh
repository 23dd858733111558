#!/bin/bash
# dev helper: exec.sh PROP [ms] [seed]
cd /verif/harness && RUSTFLAGS="--cfg rerecast_verif" cargo build --offline --target-dir ../.build/harness 2>&1 | grep -E "^(error|warning: unused)" -A6 | head -${LINES_:-60}
/verif/.build/harness/debug/exec $1 ${3:-1} ${2:-5000} /tmp/p/exec.json; echo rc=$?
python3 - <<'P'
import json
j=json.load(open('/tmp/p/exec.json'))
for g,v in j['groups'].items(): print(g,v['evaluations'],v['nontrivial'])
if j['failure']: print(json.dumps(j['failure'])[:1500])
P
