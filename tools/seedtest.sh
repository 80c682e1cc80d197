#!/bin/bash
# seedtest.sh SLOT ID...: for each seeded bug: apply it to a scratch copy of /repo, build, run the stable tests,
# its demonstration (clean and patched) and its property's check; print one line per bug.
slot=$1; shift
R=/tmp/seedrepo$slot
if [ ! -d $R ]; then mkdir $R; git -C /repo archive HEAD | tar -x -C $R; (cd $R; git init -q; git add -A; git -c user.email=a@b -c user.name=x commit -qm base); echo $(git -C /repo rev-parse HEAD) > $R/.git/base; fi
if [ "$(cat $R/.git/base)" != "$(git -C /repo rev-parse HEAD)" ]; then (cd $R; git checkout -q -- .; git -C /repo archive HEAD | tar -x -C $R; git add -A; git -c user.email=a@b -c user.name=x commit -qm base; git -C /repo rev-parse HEAD > .git/base); fi
bld() { export LC_ALL=C.UTF-8 CC=gcc CXX=g++; cmake -S $R -B $R/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error >/tmp/seed$slot.b 2>&1 && ninja -C $R/_build >>/tmp/seed$slot.b 2>&1; }
stable() { local run=$R/_build/vp-run; rm -rf "$run"; mkdir -p $run; cp -r $R/tests $run/tests; gcc -shared -fPIC -o $run/fixed_time.so /opt/vp/fixed_time.c
  (cd $run/tests; TZ=UTC python3 /opt/vp/run_tests.py $R/_build/tests/unit_test $run/fixed_time.so > $run/results.txt 2>/dev/null)
  python3 - $run/results.txt <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(l.split(' ',1)[1].strip() for l in open(sys.argv[1]) if l.startswith('PASS '))
m=b-p;print('ok' if not m else 'BROKEN:%s'%sorted(m))
P
}
for id in "$@"; do
  S=/verif/seeded/$id; T=/tmp/seeddemo$slot; mkdir -p $T; cp -r $S/. $T/; rm -f $T/patch.diff $T/meta.json
  (cd $R; git checkout -q -- .); bld || echo "clean build failed"
  (cd $R; timeout 300 bash $T/demo.sh >/tmp/seed$slot.d0 2>&1); c=$?
  (cd $R; git apply $S/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bld || { echo "$id: BUILD FAILED"; tail -5 /tmp/seed$slot.b; (cd $R; git checkout -q -- .); continue; }
  st=$(stable)
  (cd $R; timeout 300 bash $T/demo.sh >/tmp/seed$slot.d1 2>&1); p=$?
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  ck=-; s0=$(date +%s)
  if [ -z "$NOCHECK" ]; then (cd /verif; ZT_REPO=$R timeout 900 bin/check $prop --tier ${TIER:-quick} >/tmp/seed$slot.c 2>&1); r=$?; grep -q "^VIOLATION property=$prop" /tmp/seed$slot.c && ck="caught($r)" || ck="MISSED($r)"; fi
  echo "$id [$prop] stable=$st demo clean=$c patched=$p check=$ck $(( $(date +%s)-s0 ))s $(grep -m1 '^VIOLATION' -A1 /tmp/seed$slot.c | tail -1 | cut -c1-150)"
  (cd $R; git checkout -q -- .)
done
