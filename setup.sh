#!/bin/bash
# Warm the build cache; every check builds what it needs by itself as well.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
D="$(mktemp -d /tmp/vp.XXXXXX)"; go build -o "$D/vp" . ; rc=$?
rm -rf "$D"; exit $rc
