#!/bin/bash
# newbug.sh ID PROPERTY "needs" "breaks" MAIN.rs  -- the change is the uncommitted diff of the scratch copy /tmp/w
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C /tmp/w diff > "$d/patch.diff"; test -s "$d/patch.diff"
cp /verif/tools/demo/* "$d/"; cp "$5" "$d/main.rs"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
P
git -C /tmp/w checkout -q -- .
