#!/bin/bash
# replay.sh FILE [-trace]: repeats a recorded violation on /repo's working tree. Exit 1 when it happens again.
V=$(cd "$(dirname "$0")" && pwd)
F=$(realpath "$1")
W=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
"$V/build.sh" "$W" > "$W/build.log" 2>&1 || { cat "$W/build.log" >&2; exit 3; }
"$W/harness" -replay "$F" ${2:+-trace}
