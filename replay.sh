#!/bin/bash
# replay.sh FILE: runs the case of a replay file against /repo's working tree.
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
. ./env.sh
id="$(grep -o '"property" *: *"C[0-9]*"' "$f" | grep -o 'C[0-9]*' | head -1)"
bin="$(bin_of "$id")"
[ -n "$bin" ] || { echo "not a replay file: $f"; exit 2; }
build "$bin" || exit 2
exec "$CARGO_TARGET_DIR/release/$bin" replay "$f"
