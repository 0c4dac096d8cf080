#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/demo" "$scratch/demo" && cd "$scratch/demo" || exit 3
CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q 2>"$scratch/err" || { cat "$scratch/err"; exit 3; }
timeout 120 "$scratch/target/debug/demo"
