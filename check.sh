#!/bin/bash
# check.sh <property> <quick|thorough> : decide one property of /repo's working
# tree with the engine, which is built from /verif/engine first.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/engine" .) || { echo "engine does not build"; exit 2; }
"$tmp/engine" -prop "$prop" -tier "$tier" -repo "${REPO:-/repo}" -verif "$here" -v
exit $?
