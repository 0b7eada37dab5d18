#!/bin/bash
# usage: tools/selftest.sh [RUNS]   -- the same seed must give the same histories whatever the number of workers.
# Works in a scratch directory, so the evidence of the last real check is not touched.
set -u
cd "$(dirname "$0")/.." || exit 2
bin="$PWD/sim/target"; d=$(mktemp -d); mkdir -p "$d/evidence" "$d/replays"; cp known_findings.txt "$d/"; rc=0
cd "$d" || exit 2
for id in C01 C02 C03 C04 C05 C06 C07 C08 C09; do
    case $id in C08 | C09) s=hist; n=${1:-40000} ;; C05 | C06) s=ops; n=$((${1:-40000} / 20)) ;; *) s=ops; n=$((${1:-40000} / 4)) ;; esac
    out=""
    for w in 8 3 8; do
        r=$(CGSIM_WORKERS=$w CGSIM_RUNS=$n "$bin/$s/debug/cgsim" check $id 2>&1) || rc=1
        out="$out $(printf '%s\n' "$r" | grep -o 'digest [0-9a-f]*' | cut -d' ' -f2)"
    done
    set -- "${1:-40000}"
    [ "$(printf '%s\n' $out | sort -u | wc -l)" = 1 ] && echo "$id $n runs: same digest with 8, 3, 8 workers:${out%% *} $(printf '%s\n' $out | head -1)" || { echo "$id DIFFERS:$out"; rc=1; }
done
rm -rf -- "$d"
exit $rc
