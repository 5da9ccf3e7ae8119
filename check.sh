#!/bin/bash
# check.sh Cxx: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 3
V=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
if [ ! -x .build/engine ] || [ -n "$(find engine -newer .build/engine -name '*.go' -print -quit)" ]; then
  bash setup.sh || exit 3
fi
tier=${VERIF_TIER:-quick}
[ -n "$2" ] && tier=$2
budget=150s
[ "$tier" = thorough ] && budget=840s
exec timeout 880 .build/engine -check "$1" -tier "$tier" -verif "$V" -budget "$budget"
