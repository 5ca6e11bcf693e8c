#!/bin/bash
# check.sh ID quick|thorough: rebuilds the harness against /repo's working tree and runs one check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin="$(bin_of "$1")"
[ -n "$bin" ] || { echo "no check $1"; exit 2; }
build "$bin" || { echo "the harness does not build against /repo"; exit 2; }
exec "$CARGO_TARGET_DIR/release/$bin" run "$1" "${2:-quick}"
