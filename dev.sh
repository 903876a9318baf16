#!/bin/bash
# developer loop: dev.sh build | dev.sh PROP [args]   (uses /tmp/b, /tmp/v)
V=$(cd "$(dirname "$0")" && pwd)
if [ "$1" = build ]; then rm -rf /tmp/b; exec "$V/build.sh" /tmp/b; fi
P=$1; shift
exec /tmp/b/harness -prop "$P" -verif /tmp/v -known "$V/known_findings.txt" "$@"
