#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Rebuilds the harness against /repo's current tree and explores the property's spaces.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
if ! log=$(bash "$here/build.sh" "$1" 2>&1); then
    echo "$log" >&2
    echo "build failed" >&2
    exit 2
fi
case "$1" in
C23|C24) PORT_DIR="$here/port" exec "$here/target/release/port" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*) exec "$here/target/release/vk" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
