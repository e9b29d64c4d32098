#!/bin/bash
# builds the checker from the committed sources; offline, everything vendored
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOCACHE="$PWD/.cache/go-build"
mkdir -p bin
cd checker
go build -o ../bin/tcheck.new.$$ .
mv ../bin/tcheck.new.$$ ../bin/tcheck
