#!/bin/bash
# try_seed.sh <seed> [--nocheck]: full confirmation of one planted bug in /repo; leaves /repo clean.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
W=$(mktemp -d /tmp/seed.XXXX); cp -r $S/. $W/; rm -f $W/*.diff $W/meta.json
bash $W/demo.sh >$W/c.log 2>&1; c=$?
git apply $S/patch.diff || { echo "$1 patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo "$1 BUILD FAILS"; tail -20 $W/b.log; rm -rf $W; exit 2; }
t=$(bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1; python3 - $W/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x): 
    return set(x.get('passed') or x.get('stable') or x.get('tests') or [])
m=names(b)-names(t)
print('tests-ok' if not m else 'TESTS-FAIL '+' '.join(sorted(m)[:5]))
P
)
bash $W/demo.sh >$W/d.log 2>&1; d=$?
k=-
if [ "$2" != --nocheck ]; then (cd /verif && ./check.sh $P quick >$W/k.log 2>&1); k=$?; fi
echo "$1 $P demo-clean=$c demo-bug=$d $t check=$k"
[ $c = 0 ] || tail -5 $W/c.log; tail -2 $W/d.log; [ $k = 1 ] && grep -m2 -A1 VIOLATION $W/k.log
[ $k = 1 ] || tail -3 $W/k.log 2>/dev/null
rm -rf $W
