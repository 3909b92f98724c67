#!/bin/bash
# seed.sh <id> : validate a planted bug in a scratch copy: applies, builds, tests pass, demo distinguishes; then run checks
set -u
id=$1; d=/verif/seeded/$id
W=$(mktemp -d /tmp/seedXXXX); cp -a /repo $W/repo; cd $W/repo
L=$(mktemp -d /tmp/demoXXXX); cp -r $d/. $L/; rm -f $L/patch.diff $L/meta.json
( cd /repo && bash $L/demo.sh >/dev/null 2>&1 ) && echo "demo clean: ok" || echo "demo clean: FAIL"
git apply $d/patch.diff || echo APPLY-FAIL
cd /repo && git apply $d/patch.diff
( bash $L/demo.sh >/dev/null 2>&1 ) && echo "demo patched: NOT DETECTED(bad)" || echo "demo patched: ok"
bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1; tail -c 0 /tmp/seedt.json; python3 -c "import json;d=json.load(open('/tmp/seedt.json'));print('tests',len(d['passed']),[k for k in d if k!='passed' and d[k]])"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; for c in ${2:-$p}; do echo "check $c: $(python3 check.py $c | grep -v '^undecided' | head -8; )"; done
git -C /repo checkout -q -- .
rm -r $W $L
