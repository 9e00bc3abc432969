#!/bin/bash
# trybug.sh ID : build+demo with and without the planted change, and the property's quick check with it (development helper)
set -u
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git status --short | grep -q . && { echo dirty; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAIL; bash $D/demo.sh; echo "demo unpatched: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL patched; tail -5 /tmp/build.log; }; bash $D/demo.sh; echo "demo patched: $?"
if [ "${2:-}" != nocheck ]; then cd /verif; for p in $P ${2:-}; do python3 check.py $p --tier quick | tail -4; done; fi
if [ "${3:-}" = tests ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/t.json'));p=set(t.get('passed',[]));print('tests failing:',[x for x in b if x not in p])"; fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
