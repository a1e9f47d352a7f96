#!/bin/bash
# tryseed.sh DIR [check-only] : validates a planted bug in the scratch copy /tmp/seedws, mounted over /repo
D=$(realpath $1); MODE=$2
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
exec unshare -Urm bash -c '
mount --bind /tmp/seedws /repo || exit 9
D=$0; P=$1; MODE=$2
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0="*"
cd /repo && git checkout -q -- . 
if [ "$MODE" != check ]; then
 git apply --check $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 2; }
 if [ "$MODE" != fast ]; then
 bash /opt/vp/build.sh >/tmp/seed_b0.log 2>&1 || { echo "base build failed"; exit 2; }
 timeout 300 bash $D/demo.sh >/tmp/seed_d0.log 2>&1; echo "demo base rc=$?"
 fi
 git apply $D/patch.diff
 bash /opt/vp/build.sh >/tmp/seed_b1.log 2>&1 || { echo "PATCHED BUILD FAILED"; grep -m5 error: /tmp/seed_b1.log; git checkout -q -- .; exit 2; }
 bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
 python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/seed_t.json"))
s=b if isinstance(b,list) else b.get("stable") or b.get("passed") or b.get("tests")
f=[x for x in s if x not in t["passed"]]
print("tests failing:",len(f),f[:6])
PY
 timeout 300 bash $D/demo.sh >/tmp/seed_d1.log 2>&1; echo "demo patched rc=$?"; tail -3 /tmp/seed_d1.log
else git apply $D/patch.diff || exit 2; fi
if [ "$MODE" != nocheck ]; then
cd /verif && timeout 900 python3 run.py $P > /tmp/seed_c.log 2>&1; echo "check $P rc=$?"; grep -m3 -E "VIOLATION|error" /tmp/seed_c.log
fi
cd /repo && git checkout -q -- .
' $D $P $MODE
