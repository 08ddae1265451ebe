#!/bin/bash
# tools/tryseed.sh ID [notest] -- confirm /verif/seeded/ID in a scratch copy that is shown as /repo in a mount namespace
ID=$1
D=/verif/seeded/$ID
S=$(mktemp -d /tmp/seed-XXXX)
cp -a /repo "$S/repo"
mkdir "$S/demo"; cp "$D"/* "$S/demo/"; (cd "$S/demo" && rm -f ./*.diff ./*.patch meta.json)
run() { unshare -m bash -c "mount --bind $S/repo /repo && cd /repo && $1"; }
run "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $S/demo/demo.sh" >"$S/demo0.log" 2>&1; A=$?
git -C "$S/repo" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$S"; exit 1; }
run "bash /opt/vp/build.sh" >"$S/build.log" 2>&1; B=$?
run "timeout 300 bash $S/demo/demo.sh" >"$S/demo1.log" 2>&1; C=$?
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=skipped
if [ "$2" != notest ]; then
  run "bash /opt/vp/test.sh $S/out.json" >"$S/test.log" 2>&1
  T=$(python3 - "$S/out.json" <<'PY'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'));out=json.load(open(sys.argv[1]))
def passed(o):
    for k in ('stable_pass','stable','passed','pass'):
        if k in o: return set(o[k])
    return {k for k,v in o.items() if v in ('pass','passed',True)}
b=passed(base);p=passed(out)
print('all %d stable pass'%len(b) if b<=p else 'FAILED %s'%sorted(b-p)[:5])
PY
)
fi
VERIF_REPO=$S/repo timeout 900 python3-vt /verif/check.py "$P" >"$S/check.log" 2>&1; K=$?
echo "$ID: demo unpatched=$A patched=$C build=$B tests=[$T] check $P exit=$K $(grep -m1 VIOLATION "$S/check.log")"
[ $A = 0 ] || tail -5 "$S/demo0.log"
[ $K = 1 ] || tail -5 "$S/check.log"
rm -rf "$S"
