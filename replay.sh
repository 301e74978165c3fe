#!/bin/bash
# usage: replay.sh FILE   re-runs one recorded violation against /repo's current tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
if [ "$(head -1 "$1")" = port ]; then
    PORT_DIR="$here/port" exec "$here/target/release/port" replay "$1"
fi
exec "$here/target/release/vk" replay "$1"
