#!/bin/bash
# usage: plant.sh <id>   checks /verif/seeded/<id> in a scratch copy: applies, builds, passes the stable tests, demo fails with it and passes without
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; mkdir -p $w
cp -a $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
cd /repo
git apply --check $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash $w/demo/demo.sh > $w/base.log 2>&1; b=$?
git apply $d/patch.diff
bash /opt/vp/build.sh > $w/build.log 2>&1; bl=$?
bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1; tl=$?
bash $w/demo/demo.sh > $w/bug.log 2>&1; p=$?
res=""
if [ "${2:-}" != "" ]; then shift; for c in "$@"; do (cd /verif && python3-vt check.py $c > $w/check-$c.log 2>&1; echo "check $c: exit $? $(grep -h ^VIOLATION $w/check-$c.log)"); done; fi
git -C /repo checkout -q -- .
echo "$id: demo base=$b build=$bl tests=$tl ($(tail -1 $w/test.log)) demo bug=$p"
tail -3 $w/bug.log | cut -c1-300
