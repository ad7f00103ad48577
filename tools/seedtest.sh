#!/bin/bash
# seedtest.sh ID [tests|check|all] [tier]: confirms a planted bug and runs its property's check against it
# (scratch copy for the check; /repo itself, restored afterwards, for build, tests and demo)
id=$1; what=${2:-all}; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ $what != check ]; then
  git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $S/patch.diff || exit 9
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seedbuild.log 2>&1
  t=$(tail -1 /tmp/seedbuild.log)
  (cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo1.log 2>&1); b=$?
  git -C /repo checkout -- .
  echo "$id [$prop] demo clean=$a patched=$b tests: $t"
fi
if [ $what != tests ]; then
  rm -rf /tmp/wt; mkdir -p /tmp/wt; cp -a /repo/include /repo/src /tmp/wt/
  (cd /tmp/wt; git init -q . 2>/dev/null; patch -p1 -s < $S/patch.diff) || exit 9
  VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/wtb timeout 900 python3 /verif/check.py $prop ${3:-quick} > /tmp/seedcheck.log 2>&1
  echo "$id [$prop] check exit $?: $(grep -A1 VIOLATION /tmp/seedcheck.log | head -2 | tr '\n' ' ' | cut -c1-250) $(tail -1 /tmp/seedcheck.log)"
  rm -rf /tmp/wt /tmp/wtb
fi
