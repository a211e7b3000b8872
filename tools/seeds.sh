#!/bin/bash
# Author's tool: seeds.sh [ID...]  For each planted change: demo on the clean tree, then with the
# change: build, stable tests, demo, and the check of its property (quick tier).
V=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls $V/seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bt() { bash /opt/vp/build.sh >/tmp/seeds.build 2>&1 || { echo "BUILD-FAILS"; return; }
  bash /opt/vp/test.sh /tmp/seeds.json >/dev/null 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seeds.json'))
p=set(r.get('passed',r.get('pass',[])))
m=[x for x in b if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s'%m)
P
}
bash /opt/vp/build.sh >/tmp/seeds.build 2>&1
declare -A c
for i in "${ids[@]}"; do (cd /repo; timeout 300 bash $V/seeded/$i/demo.sh >/tmp/seeds.demo 2>&1); c[$i]=$?; done
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  t=$(bt); (cd /repo; timeout 300 bash $V/seeded/$i/demo.sh >/tmp/seeds.demo 2>&1); d=$?
  OCG_MC_EVIDENCE=/tmp/seeds.ev timeout 900 python3 $V/tools/check.py $p --tier quick >/tmp/seeds.out 2>/tmp/seeds.err; r=$?
  git -C /repo checkout -q -- .
  s=CAUGHT; { [ $r = 1 ] && grep -q "VIOLATION property=$p" /tmp/seeds.out; } || s="MISSED(rc=$r)"
  echo "$i $p demo clean=${c[$i]} patched=$d $t $s :: $(grep -m1 -i -A3 'violat' /tmp/seeds.out | tr '\n' ' ' | cut -c1-260)"
done
