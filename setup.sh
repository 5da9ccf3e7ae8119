#!/bin/bash
# Builds the symbolic executor (offline) into /verif/.build and warms the Go build cache.
set -e
cd "$(dirname "$0")"
V=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p .build evidence
(cd engine && go build -o "$V/.build/engine.$$" . && mv -f "$V/.build/engine.$$" "$V/.build/engine")
(cd harness && go build ./... >/dev/null 2>&1) || true
