#!/bin/bash
# seedcheck.sh ID [notest] : in a private mount namespace on a scratch copy of /repo, apply seeded/ID, build, test, demo, check
ID=$1; M=$2; V=/verif
W=/tmp/sc_$ID; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; mkdir -p "$W/ev" "$W/rp" "$W/build"
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cat > "$W/in.sh" <<X
set -u
mount --bind $W/repo /repo || exit 9
mount --bind $W/ev $V/evidence; mount --bind $W/rp $V/replays
cd /repo
git apply $V/seeded/$ID/patch.diff || { echo "$ID: APPLY-FAIL"; exit 1; }
if [ "$M" = notest ]; then cmake --build _build >/dev/null 2>&1 || bash /opt/vp/build.sh >$W/build.log 2>&1
else bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: BUILD-FAIL"; exit 1; }
 bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
 python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
bs=set(b.get('passed') or b.get('stable') or b.get('tests') or b)
p=set(t.get('passed',[]))
m=sorted(bs-p)
print('$ID: TESTS', 'OK' if not m else 'FAIL %d %s' % (len(m), m[:5]))
Y
fi
bash $V/seeded/$ID/demo.sh >$W/demo.log 2>&1; echo "$ID: DEMO rc=\$? \$(tail -c 200 $W/demo.log | tr '\n' ' ')"
cd $V; VF_BUILD=$W/build VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vrun.py $P quick > $W/check.log 2>&1; echo "$ID: CHECK $P rc=\$? \$(grep -a VIOLATION $W/check.log | head -2)"
X
( cd /repo && bash "$V/seeded/$ID/demo.sh" >$W/demo0.log 2>&1; echo "$ID: DEMO-UNCHANGED rc=$?" )
unshare -Urm bash "$W/in.sh"
[ -n "$KEEP" ] || rm -rf "$W"
