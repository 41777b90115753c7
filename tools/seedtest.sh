#!/bin/bash
# tools/seedtest.sh ID [check-id...]: confirm a planted bug, then run its property's check (and any others) against it.
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo not clean"; exit 2; }
bash $S/demo.sh >/tmp/sd.out 2>&1 || { echo "$S: demo fails on the unchanged tree"; cat /tmp/sd.out; exit 1; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
( bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/sd.json ) >/tmp/sd.out 2>&1 || { echo "$S: build/test"; tail -20 /tmp/sd.out; exit 1; }
python3 - <<'P' || exit 1
import json
d=json.load(open('/tmp/sd.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[t for t in st if t not in str(d.get('passed',d.get('pass',d)))]
f=d.get('failed',d.get('fail',[]))
if bad or f: print('TESTS',bad,f); raise SystemExit(1)
P
bash $S/demo.sh >/tmp/sd.out 2>&1; r=$?
[ $r -ne 0 ] || { echo "$S: demo passes with the bug"; exit 1; }
[ $r -eq 3 ] && { echo "$S: demo does not build"; cat /tmp/sd.out; exit 1; }
for c in $P "$@"; do
  s=$(date +%s.%N); VERIF_SEED=${VERIF_SEED:-1} $V/run.sh $c quick -noevidence >/tmp/sd.out 2>&1; r=$?; e=$(date +%s.%N)
  v=$(grep -c "^VIOLATION property=$c" /tmp/sd.out)
  echo "$(basename $S) $c: exit $r violations $v $(python3 -c "print('%.0fs'%($e-$s))")"
done
