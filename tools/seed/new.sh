#!/bin/bash
# new.sh ID PROP "needs" "breaks": records the current edit of /repo as a planted change
S=/verif/seeded/$1; mkdir -p $S/demo
git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
cp /verif/tools/seed/demo.sh $S/; cp /verif/tools/seed/Cargo.toml.in $S/demo/; cp /verif/harness/core/src/sim.rs $S/demo/sim.rs
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
[ -f /tmp/main.rs ] && mv /tmp/main.rs $S/demo/main.rs
ls $S $S/demo
