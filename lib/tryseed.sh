#!/bin/bash
# tryseed.sh ID [CHECKS...]: confirm a planted bug in a scratch copy of /repo that is bind-mounted
# over /repo in a private mount namespace: builds, runs the stable tests, the demo and the checks.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
S=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$S/repo"
export V ID S; export CHK="$*"
unshare -m bash -c '
mount --bind $S/repo /repo || exit 9
cd /repo
D=$S/demo; cp -r $V/seeded/$ID $D; rm -f $D/patch.diff $D/meta.json
if [ -z "$NOBASE" ]; then bash $D/demo.sh > $S/d0.log 2>&1; echo "demo unchanged: $? (want 0)"; tail -3 $S/d0.log; fi
git apply $V/seeded/$ID/patch.diff || exit 8
bash /opt/vp/build.sh > $S/b.log 2>&1 || { tail -20 $S/b.log; echo BUILD FAILED; exit 7; }
bash /opt/vp/test.sh $S/o.json > $S/t.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open("$S/o.json"))
st=b.get("stable") or b.get("passed") or b
print("stable tests now failing:", sorted(set(st)-set(o["passed"]))[:8])
P
bash $D/demo.sh > $S/d1.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -3 $S/d1.log
P=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$ID/meta.json\"))[\"property\"])")
cd $V; for c in ${CHK:-$P}; do VERIF_BUILD=$S/vb python3 check.py $c quick 2>&1 | grep -E "VIOLATION|held|VIOLATED|ERROR|FAILED|rejected" | cut -c1-300; done
'
find "$S" -xdev -delete
