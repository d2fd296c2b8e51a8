#!/bin/sh
# check.sh ID [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p bin
(cd engine && go build -o ../bin/engine .) || exit 3
exec ./bin/engine check -root "$PWD" -id "$1" -tier "${2:-${VERIF_TIER:-quick}}"
