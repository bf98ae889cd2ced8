#!/bin/bash
# seedtry.sh <seed-id> [notest]: in a scratch copy of /repo, apply the seeded change, build, run tests, run the demo with and without it
set -u
id=$1; S=/verif/seeded/$id; C=/tmp/seedtry.$id
rm -rf "$C"; mkdir -p "$C"; cp -a /repo "$C/repo"
fix() { sed "s#/repo#$C/repo#g" /opt/vp/$1 > $C/$1; }
fix build.sh; fix test.sh; sed -i "s#bash /opt/vp/build.sh#bash $C/build.sh#" $C/test.sh
cd $C/repo; git checkout -q -- .
bash $C/build.sh > $C/build.log 2>&1 || { echo "base build failed"; tail $C/build.log; exit 2; }
cp -a $S $C/demo; rm -f $C/demo/*.diff $C/demo/meta.json
(cd $C/repo && timeout 300 bash $C/demo/demo.sh > $C/demo0.log 2>&1); d0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash $C/build.sh > $C/build.log 2>&1 || { echo "patched build failed"; tail $C/build.log; exit 2; }
(cd $C/repo && timeout 300 bash $C/demo/demo.sh > $C/demo1.log 2>&1); d1=$?
t=skipped
if [ "${2:-}" != notest ]; then
 bash $C/test.sh $C/out.json > $C/test.log 2>&1
 t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$C/out.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('tests-ok' if not m else 'TESTS-FAIL '+','.join(m[:5]))")
fi
echo "$id demo base=$d0 patched=$d1 $t"
[ $d0 = 0 ] || tail -5 $C/demo0.log
[ $d1 != 0 ] || tail -5 $C/demo1.log
rm -rf "$C"
