#!/bin/bash
# Builds the condition generator and warms the build cache; everything offline.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p .bin evidence
(cd govc && GOFLAGS=-mod=mod go build -o ../.bin/govc .)
python3 tools/selftest.py
(cd /repo && go build ./... && go test -vet=off -count=1 -run XXX_NONE ./pkg/... >/dev/null)
