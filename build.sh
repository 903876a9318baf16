#!/bin/bash
# build.sh DIR: builds the simulation harness from /repo's current working tree into DIR/harness.
# Everything happens in DIR; /repo is only read.
set -e
D=$1
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO_DIR:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOWORK=off GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$D/ib" "$D/w/zzverif"
cp "$V"/instr/main.go "$D/ib/"
printf 'module instr\n\ngo 1.21\n' > "$D/ib/go.mod"
(cd "$D/ib" && go build -o "$D/instr" .)
"$D/instr" -src "$R" -out "$D/w"
cp -r "$V/simrt" "$V/harness" "$D/w/zzverif/"
(cd "$D/w" && go build -o "$D/harness" ./zzverif/harness)
