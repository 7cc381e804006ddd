#!/bin/bash
# usage: seednew.sh ID PROP NEEDS BREAKS  : takes /repo's uncommitted diff as the patch, demo.rs from /tmp/demo.rs
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty; exit 1; }
git -C /repo checkout -- .
cp /verif/tools/seedtpl/demo.sh $d/; cp /tmp/demo.rs $d/demo.rs
python3 - "$@" > $d/meta.json <<P
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
P
