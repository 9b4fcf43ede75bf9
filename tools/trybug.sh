#!/bin/bash
# trybug.sh ID [--tests]: applies a planted bug in /repo, runs its demo and check, undoes it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
bash /opt/vp/build.sh > /tmp/trybug-build.log 2>&1 || echo BUILD FAILED
if [ "$2" = "--tests" ]; then bash /opt/vp/test.sh /tmp/trybug.json 2>&1 | tail -n 1; fi
(cd /repo && bash $d/demo.sh > /tmp/trybug-demo.log 2>&1); dr=$?
cd /verif && python3 sim/check.py $prop --quick > /tmp/trybug-check.log 2>&1; cr=$?
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/trybug-build.log 2>&1
(cd /repo && bash $d/demo.sh > /tmp/trybug-demo0.log 2>&1); d0=$?
echo "$id prop=$prop demo-clean=$d0 demo-bug=$dr check=$cr $(grep -m1 '^violated' /tmp/trybug-check.log)"
