#!/bin/bash
# Warms the build cache; every check builds the engine itself.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
cd engine && go build -o "$t/engine" .
