#!/bin/bash
# seedtest.sh ID [nocheck] : confirm a planted bug (needs clean /repo) and run its check
set -u; d=/verif/seeded/$1; cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 9; }
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo base build failed; exit 9; }
timeout 300 bash $d/demo.sh >/tmp/sd0.log 2>&1; echo "base demo rc $?"
git apply $d/patch.diff || { echo apply failed; exit 9; }
if bash /opt/vp/build.sh >/tmp/sb.log 2>&1; then
bash /opt/vp/test.sh /tmp/st.json >/tmp/stt.log 2>&1; tail -c 300 /tmp/st.json; echo
timeout 300 bash $d/demo.sh >/tmp/sd1.log 2>&1; echo "patched demo rc $?"; tail -3 /tmp/sd1.log
[ "${2:-}" = nocheck ] || { (cd /verif; python3 check.py ${3:-$pid} quick | tail -5; ); }
else echo "patched build FAILED"; tail -5 /tmp/sb.log; fi
git checkout -- . ; bash /opt/vp/build.sh >/tmp/sb.log 2>&1
