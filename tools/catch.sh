#!/bin/bash
# catch.sh [id ...]: apply each planted bug to /repo, run its property's check, undo it.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id in "$@"; do
    p="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")"
    [ -n "${PROPERTY:-}" ] && p="$PROPERTY"
    git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    t=$(date +%s)
    out="$("$here/check.sh" "$p" 2>/dev/null)"; rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p exit $rc $(($(date +%s) - t))s: $(printf '%s\n' "$out" | grep -B1 "^VIOLATION" | head -1 | cut -c1-200)"
done
