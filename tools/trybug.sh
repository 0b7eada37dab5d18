#!/bin/bash
# trybug.sh ID [CHECK...] -- confirms a planted change's demonstration both ways and runs its property's check against it.
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
cd /repo; test -z "$(git status --porcelain)" || { echo dirty; exit 9; }
bash $d/demo.sh >/dev/null 2>&1; a=$?
git apply $d/patch.diff || exit 9
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; n=$(grep -o '"passed"' -c /tmp/t.json)
bash $d/demo.sh >/tmp/demo.out 2>&1; b=$?
echo "== $(basename $d) $p demo clean=$a patched=$b ($(tail -1 /tmp/demo.out | cut -c1-150))"
for c in ${@:-$p}; do
(cd /verif && ./check.sh $c 2>&1 | cut -c1-300 | grep -v '^$' | tail -5); done
git checkout -q -- .
