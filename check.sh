#!/bin/bash
# check.sh PROPERTY quick|thorough
# Rebuilds the simulation from /repo's working tree and searches. Exit 0: held on everything explored.
# Exit 1: VIOLATION line. Exit 2/3: the check itself could not run.
V=$(cd "$(dirname "$0")" && pwd)
P=$1
T=${2:-${VERIF_TIER:-quick}}
S=${VERIF_SEED:-1}
W=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
"$V/build.sh" "$W" > "$W/build.log" 2>&1 || { cat "$W/build.log" >&2; echo "check.sh: the simulation did not build" >&2; exit 3; }
ulimit -v 12000000
"$W/harness" -prop "$P" -tier "$T" -seed "$S" -verif "$V" -known "$V/known_findings.txt" -workers "${VERIF_WORKERS:-8}"
exit $?
