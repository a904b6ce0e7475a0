#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the uncommitted change in /tmp/wt as the planted bug ID
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff; git -C /tmp/wt checkout -q -- .
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
wc -l $d/patch.diff
