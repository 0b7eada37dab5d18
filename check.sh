#!/bin/bash
# usage: check.sh ID   -- builds the simulator against /repo's working tree and runs one property's check.
# exit 0: held on everything explored; 1 + VIOLATION line: broken; 2/3: the check itself could not run.
set -u
cd "$(dirname "$0")" || exit 2
id="$1"
case "$id" in C08 | C09) set=hist ;; *) set=ops ;; esac
mkdir -p evidence replays
if ! out=$(./build.sh "$set" 2>&1); then
    printf '%s\n' "$out" | tail -n 40
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
exec "sim/target/$set/debug/cgsim" check "$id"
