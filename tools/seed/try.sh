#!/bin/bash
# try.sh ID [check...]: does the planted change /verif/seeded/ID count, and which checks catch it
S=/verif/seeded/$1; shift
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP" ]; then
bash $S/demo.sh > /tmp/demo0.log 2>&1; echo "demo unchanged: $?"
git apply $S/patch.diff || exit 2
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/t.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'));
ok=set(o['passed']); print('tests failing:',[t for t in b['stable'] if t not in ok])"
bash $S/demo.sh > /tmp/demo1.log 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo1.log
else git apply $S/patch.diff || exit 2; fi
cd /verif
for c in "$@"; do echo "$c: $(VERIF_SEED=1 ./check $c 2>/tmp/chk_$c.log | tail -1)"; grep -o '"clauses": \[[^]]*\]' /tmp/chk_$c.log|head -1; done
