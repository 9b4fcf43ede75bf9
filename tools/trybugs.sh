#!/bin/bash
# trybugs.sh [-n] ID...: in a scratch copy of /repo, for each planted bug: tests (unless -n), demo with and without it, quick check.
T=/tmp/tb
tests=1; [ "$1" = "-n" ] && { tests=0; shift; }
if [ ! -d $T ]; then
  git clone -q /repo $T || exit 9
  mkdir -p $T/.git/vp
fi
git -C $T fetch -q origin && git -C $T reset -q --hard origin/main || exit 9
for f in build.sh test.sh; do sed "s#/repo#$T#g; s#/opt/vp/build.sh#$T/.git/vp/build.sh#g" /opt/vp/$f > $T/.git/vp/$f; done
run() { (cd $T && bash /verif/seeded/$1/demo.sh > $T/.git/vp/demo.log 2>&1); echo $?; }
bash $T/.git/vp/build.sh > $T/.git/vp/build.log 2>&1 || { echo clean build failed; exit 9; }
declare -A clean
for id in "$@"; do clean[$id]=$(run $id); done
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $T apply $d/patch.diff || { echo "$id does not apply"; continue; }
  note=
  bash $T/.git/vp/build.sh > $T/.git/vp/build.log 2>&1 || note="BUILD FAILED"
  if [ $tests = 1 ]; then
    bash $T/.git/vp/test.sh $T/.git/vp/t.json > $T/.git/vp/test.log 2>&1
    note="$note $(python3 - $T/.git/vp/t.json <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def ids(x):
    if isinstance(x,dict):
        for k in ("passed","stable","tests"):
            if k in x: return ids(x[k])
        return {k for k,v in x.items() if v in (True,"pass","PASS","passed")}
    return {i if isinstance(i,str) else i.get("id") for i in x}
m=ids(b)-ids(t); print("tests-ok" if not m else "TESTS-FAIL %s" % sorted(m)[:3])
E
)"
  fi
  db=$(run $id)
  (cd /verif && VERIF_REPO=$T python3 sim/check.py $prop --quick > /tmp/tb-$id.log 2>&1); cr=$?
  git -C $T checkout -q -- .
  echo "$id prop=$prop demo-clean=${clean[$id]} demo-bug=$db check=$cr $note $(grep -m1 '^violated' /tmp/tb-$id.log)"
done
