#!/bin/bash
# trybug.sh ID [PROP...]: validate a planted change and run checks against it
ID=$1; shift; D=/verif/seeded/$ID
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "base build fails"; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/tb.demo 2>&1; echo "demo unchanged: $?"
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/tmp/tb.log 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "BUILD FAILS"; tail -3 /tmp/tb.log; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/tb.json'))
print('tests missing:',sorted(set(b['stable'])-set(o['passed'])))"
timeout 300 bash $D/demo.sh >/tmp/tb.demo 2>&1; echo "demo changed: $?"; tail -2 /tmp/tb.demo
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for p in $P; do timeout 900 python3 /verif/check.py $p quick 2>&1 | tail -3; done
