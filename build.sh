#!/bin/bash
# Builds /verif/bin/zmqcheck from /verif/analyzer (offline: dependencies are vendored).
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor CGO_ENABLED=0
export HOME="${HOME:-/root}"
mkdir -p bin
if [ -x bin/zmqcheck ] && [ -z "$(find analyzer -newer bin/zmqcheck -type f -print -quit)" ]; then
    exit 0
fi
cd analyzer && go build -o ../bin/zmqcheck.$$ . && mv ../bin/zmqcheck.$$ ../bin/zmqcheck
