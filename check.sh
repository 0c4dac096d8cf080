#!/bin/bash
# check.sh <property>: rebuild the simulator from /repo's working tree, then decide the property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 3
# /repo may have been changed without newer file times: the crates under test are always rebuilt
find target/release/.fingerprint -maxdepth 1 \( -name 'protosocket*' -o -name 'psim*' \) -exec rm -rf {} + 2>/dev/null
if ! out="$(cargo build --offline --release 2>&1)"; then
    printf '%s\n' "$out" | tail -40 >&2
    echo "check: the simulator does not build against /repo" >&2
    exit 2
fi
[ "${1:-}" = --build-only ] && exit 0
exec target/release/psim check "$1" "$here"
