#!/bin/bash
# Builds the framework once (fills the Go build cache) and shows that it runs.
V=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
"$V/build.sh" "$W" || exit 3
"$W/harness" -list
