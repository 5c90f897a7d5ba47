#!/bin/bash
# tools/seed.sh ID [notest]: applies a planted bug to /repo, builds, tests, runs its demonstration and its check, undoes it
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1); r0=$?
fi
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/seed.build; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
t=$(python3 -c "
import json;d=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']);print(len([x for x in b['stable'] if x not in p]))")
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1); r1=$?
echo "$id: demo clean=$r0 patched=$r1, stable tests missing=$t"
fi
(cd /verif; timeout 900 python3 check.py $prop >/tmp/seed.check 2>&1); rc=$?
echo "$id: check $prop exit=$rc $(grep -m1 -v "^S..: " /tmp/seed.check | cut -c1-220)"
