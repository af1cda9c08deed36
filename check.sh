#!/bin/bash
# Usage: check.sh ID...   builds the analyzer if need be, then runs the checks.
cd "$(dirname "$0")" || exit 1
if ! bash ./build.sh >&2; then
    for id in "$@"; do echo "cannot build the analyzer: $id is undecided"; done
    exit 2
fi
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
exec ./bin/zmqcheck "$@"
