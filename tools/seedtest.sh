#!/bin/bash
# seedtest.sh ID [notest] [nocheck]: a planted bug in a private mount namespace (a copy of /repo bound over /repo):
# applies? demo passes without / fails with? stable tests pass with? is it caught by its property's quick check?
ID=$1; shift; OPT="$*"
S=/verif/seeded/$ID; W=/tmp/sr_$ID; rm -rf "/tmp/sr_$ID"; mkdir -p $W/out
cp -a /repo $W/repo; cp -a $S $W/seed; cp -a /verif $W/verif; rm -rf "$W/verif/seeded" "$W/verif/.git"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export W OPT P ID
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
if [[ $OPT != *nodemo0* ]]; then timeout 300 bash $W/seed/demo.sh >$W/out/demo0.txt 2>&1; echo "$ID demo unpatched rc=$? (want 0)"; fi
git apply $W/seed/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh >$W/out/build.txt 2>&1 || { echo "$ID BUILD FAILS"; tail -5 $W/out/build.txt; exit 1; }
timeout 300 bash $W/seed/demo.sh >$W/out/demo1.txt 2>&1; echo "$ID demo patched rc=$? (want nonzero): $(tail -1 $W/out/demo1.txt | cut -c1-150)"
if [[ $OPT != *nocheck* ]]; then cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $P quick >$W/out/check.txt 2>&1; echo "$ID check $P rc=$? (want 1): $(grep -v "^check err" $W/out/check.txt | head -2 | cut -c1-300)"; cd /repo; fi
if [[ $OPT != *notest* ]]; then bash /opt/vp/test.sh $W/out/t.json >$W/out/test.txt 2>&1; python3 - <<Q
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/out/t.json"))
st=b.get("stable") or b.get("passed") or b
ok=set(t.get("passed",t.get("pass",[])))
bad=[x for x in st if x not in ok]
print("$ID stable tests failing:",len(bad),bad[:4])
Q
fi
'
cp -r $W/out /tmp/w/so_$ID 2>/dev/null
rm -rf "/tmp/sr_$ID"
