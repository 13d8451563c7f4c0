#!/bin/bash
# tools/plant.sh ID [PROP...]: validates one planted bug on /repo (build, stable tests, demo both ways) and runs its check
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/plant.$id.clean 2>&1 ); c=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
t=$(python3 - <<P
import json
r=json.load(open('/tmp/plant.json')); b=json.load(open('/opt/vp/BASELINE.json'))
ps=set(r.get('passed') or r.get('pass') or []); bs=set(b.get('passed') or b.get('stable') or b.get('tests') or b.get('pass') or [])
print(len(bs-ps), len(bs))
P
)
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/plant.$id.bug 2>&1 ); b=$?
out=""
for p in $prop "$@"; do (cd /verif && timeout 880 python3 check.py $p $CASE >/tmp/plant.$id.chk 2>&1); out="$out $p=$?"; done
git -C /repo checkout -q -- .
echo "$id: demo clean=$c bug=$b, baseline tests lost/total=$t, checks:$out"
grep -h "^  " /tmp/plant.$id.chk | cut -c1-180 | head -3
