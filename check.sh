#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="${VERIF_DIR:-$PWD}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="${VERIF_ENGINE_BIN:-}"
if [ -z "$bin" ]; then
  t=$(mktemp -d)
  trap 'rm -r "$t"' EXIT
  bin="$t/engine"
  (cd engine && go build -o "$bin" .) || exit 2
fi
"$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
