#!/bin/bash
# seed.sh verify ID...  : in a scratch copy, demo passes unpatched, patch builds, tests pass, demo fails
# seed.sh save ID       : record the scratch copy's current diff as seeded/ID/patch.diff and restore the copy
# seed.sh check ID...   : run the check of the seeded property against the patched scratch copy
S=/tmp/sc/repo; V=/verif/seeded
setup() { [ -d $S/.git ] || { mkdir -p /tmp/sc; cp -a /repo $S; rm -rf /tmp/sc/repo/_build; }
  git -C $S checkout -q -- . && git -C $S fetch -q /repo HEAD && git -C $S checkout -q FETCH_HEAD
  sed 's#/repo#/tmp/sc/repo#g' /opt/vp/build.sh > /tmp/sc/build.sh
  sed 's#/repo#/tmp/sc/repo#g; s#/opt/vp/build.sh#/tmp/sc/build.sh#' /opt/vp/test.sh > /tmp/sc/test.sh; }
tests() { bash /tmp/sc/test.sh /tmp/sc/out.json > /tmp/sc/t.log 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=set(json.load(open('/tmp/sc/out.json'))['passed'])
bp=set(b.get('passed') or b.get('stable') or b.get('tests')); m=sorted(bp-o); print('tests missing:',len(m),m[:4]); raise SystemExit(bool(m))"; }
demo() { (cd $S && timeout 300 bash $V/$1/demo.sh > /tmp/sc/demo.log 2>&1); }
cmd=$1; shift
if [ $cmd = save ]; then mkdir -p $V/$1; git -C $S diff > $V/$1/patch.diff; git -C $S checkout -q -- .; wc -l $V/$1/patch.diff; exit; fi
setup
for id in "$@"; do
  if [ $cmd = verify ]; then
    bash /tmp/sc/build.sh > /tmp/sc/b.log 2>&1 || { echo "$id: base build fails"; continue; }
    demo $id; a=$?; [ $a = 0 ] || { echo "$id: DEMO FAILS ON BASE ($a)"; tail -5 /tmp/sc/demo.log; }
    git -C $S apply $V/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
    bash /tmp/sc/build.sh > /tmp/sc/b.log 2>&1 || { echo "$id: patched build fails"; tail -5 /tmp/sc/b.log; git -C $S checkout -q -- .; continue; }
    t=$(tests) || echo "$id: TESTS FAIL: $t"
    demo $id; b=$?; [ $b != 0 ] || echo "$id: DEMO PASSES WITH PATCH"
    echo "$id: base demo=$a patched demo=$b $t"; tail -1 /tmp/sc/demo.log
    git -C $S checkout -q -- .
  else
    p=$(python3 -c "import json;print(json.load(open('$V/$id/meta.json'))['property'])")
    git -C $S apply $V/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
    (cd /verif && VP_REPO=$S timeout 1200 python3 vprun.py check $p > /tmp/sc/$id.check 2>&1); r=$?
    echo "$id $p rc=$r $(grep -h 'violated\|UNCONF\|INCONC' /tmp/sc/$id.check | cut -c1-230 | head -3)"
    git -C $S checkout -q -- .
  fi
done
