#!/bin/bash
# trybug.sh ID [tests] [check]: tries a planted bug in a scratch copy of /repo and /verif (bind-mounted in a namespace)
ID=$1; shift
W=$(mktemp -d /tmp/tb.XXXXXX)
trap 'rm -rf "$W"' EXIT
if [ -z "$IN" ]; then
    cp -a /repo "$W/repo"
    mkdir "$W/verif"
    (cd /verif && tar cf - --exclude=build/run-* --exclude=build/replays --exclude=.git .) | tar xf - -C "$W/verif"
    cp -a /verif/seeded/$ID "$W/seed"
    # -r keeps the original line for the outer trap
    W=$W ID=$ID OPTS="$*" unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh > $W/b.log 2>&1 || { echo "$ID: BUILD CLEAN FAILED"; exit 1; }
d() { (cd /repo; timeout 300 bash $W/seed/demo.sh > $W/d.log 2>&1); echo $?; }
r0=$(d); [ "$r0" = 0 ] || { echo "$ID: demo fails on clean tree: $r0"; tail -5 $W/d.log; }
git apply $W/seed/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/b.log 2>&1 || { echo "$ID: BUILD PATCHED FAILED"; tail -20 $W/b.log; exit 1; }
r1=$(d); echo "$ID: demo clean=$r0 patched=$r1: $(tail -1 $W/d.log)"
P=$(python3 -c "import json;print(json.load(open(\"$W/seed/meta.json\"))[\"property\"])")
case "$OPTS" in *check*) cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $P quick > $W/c.log 2>&1; echo "$ID: check $P exit $?: $(grep -m1 -A1 VIOLATION $W/c.log | cut -c1-250) $(tail -1 $W/c.log | cut -c1-200)";; esac
case "$OPTS" in *tests*) cd /repo; bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"$W/t.json\"))
s=b.get(\"stable\") or b.get(\"passed\") or b.get(\"tests\")
m=sorted(set(s)-set(t[\"passed\"]))
print(\"$ID: stable tests failing:\",len(m),m[:5])
";; esac
'
fi
