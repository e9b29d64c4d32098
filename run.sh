#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property for the current source in /repo
cd "$(dirname "$0")"
tier=${2:-${VERIF_TIER:-quick}}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOCACHE="$PWD/.cache/go-build"
if [ ! -x bin/tcheck ] || [ -n "$(find checker -name '*.go' -newer bin/tcheck -not -path '*/vendor/*' | head -1)" ]; then
  bash setup.sh >&2 || { echo "cannot build the checker"; exit 2; }
fi
exec bin/tcheck -property "$1" -tier "$tier" -repo /repo -out "$PWD"
