#!/bin/bash
# Checks that the framework builds offline (each check builds it again itself).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/vsetup.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cd "$here/engine" && go build -o "$tmp/engine" . && "$tmp/engine" -list -repo /repo -verif "$here" | tail -1
