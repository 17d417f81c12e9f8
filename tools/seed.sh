#!/bin/bash
# tools/seed.sh ID PROPERTY "needs" "what it breaks"   -- the edit is in the scratch copy /tmp/wt, the demo in /verif/seeded/ID
# Confirms the planted change (builds, stable tests pass, demo fails with it and passes without) and runs the property's check on it.
# Everything runs in a private mount namespace in which the scratch copy stands at /repo.
ID=$1; P=$2; S=/verif/seeded/$ID
cd /tmp/wt || exit 2
mkdir -p "$S"
if [ -n "$3" ]; then git diff > "$S/patch.diff"; python3 - "$S" "$P" "$3" "$4" <<'PY'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
PY
fi
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
[ -s "$S/patch.diff" ] || { echo EMPTY PATCH; exit 2; }
if [ -f "$S/demo.cpp" ] && [ ! -f "$S/demo.sh" ]; then cp /verif/tools/demo.sh.in "$S/demo.sh"; fi
chmod +x "$S/demo.sh"
unshare -Urm bash -c '
mount --bind /tmp/wt /repo; cd /repo
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo BASE BUILD FAILED; tail -5 /tmp/seed.log; }
bash '$S'/demo.sh >/tmp/seed.demo0 2>&1; echo "demo on base: $? (want 0)"; tail -3 /tmp/seed.demo0
git apply '$S'/patch.diff || echo APPLY FAILED
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo BUILD FAILED; grep -m5 error /tmp/seed.log; }
bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
bash '$S'/demo.sh >/tmp/seed.demo1 2>&1; echo "demo on patch: $? (want nonzero)"; tail -3 /tmp/seed.demo1
[ "'$NOCHECK'" ] || { python3-vt /verif/run.py '$P' > /tmp/seed.chk 2>&1; echo "check exit $?"; grep -v "bounded stand-in" /tmp/seed.chk | cut -c1-300 | tail -4; }
git checkout -q -- .
'
