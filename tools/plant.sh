#!/bin/bash
# plant.sh <id>...  confirms planted changes in a scratch copy bind-mounted over /repo (private namespace):
# demo passes on the unchanged build; with the patch it builds, the stable tests pass and the demo fails.
# usage: plant.sh base | plant.sh <id>...
S=/tmp/scr/repo
[ -d $S ] || { mkdir -p /tmp/scr; cp -a /repo /tmp/scr/repo; }
for id in "$@"; do
unshare -Urm bash -c '
 id=$1; S=/tmp/scr/repo; D=/verif/seeded/$id; L=/tmp/plant/$id; mkdir -p $L
 mount --bind $S /repo || exit 9
 cd /repo; git checkout -q -- . ; git clean -fdq program/tests clients >/dev/null
 if [ "$2" != nobase ]; then bash /opt/vp/build.sh > $L/build0.log 2>&1 || { echo "$id: base does not build"; exit 1; }
 timeout 300 bash $D/demo.sh > $L/demo0.log 2>&1; d0=$?; else d0=-; fi
 git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
 bash /opt/vp/build.sh > $L/build1.log 2>&1 || { echo "$id: patched does not build"; tail -5 $L/build1.log; git checkout -q -- .; exit 1; }
 bash /opt/vp/test.sh $L/out.json > $L/test.log 2>&1
 t=$(python3 - $L/out.json <<EOF
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
st=b["stable"]; st=set(st if isinstance(st,list) else st.keys())
p=o.get("passed",[]); p=set(p if isinstance(p,list) else p.keys())
m=st-p
print("tests-ok" if not m else "TESTS-FAIL %d %s"%(len(m),sorted(m)[:3]))
EOF
)
 timeout 300 bash $D/demo.sh > $L/demo1.log 2>&1; d1=$?
 git checkout -q -- .; git clean -fdq program/tests clients >/dev/null
 echo "$id: demo-base=$d0 $t demo-patched=$d1"
' _ $id $NB
done
