#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra gosym flags]
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null || shift $#
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GOSUMDB=off CGO_ENABLED=0
mkdir -p bin
(cd engine && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || { echo "ERROR: the engine does not build"; exit 2; }
exec bin/gosym check -prop "$prop" -tier "$tier" "$@"
