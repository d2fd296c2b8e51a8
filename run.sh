#!/bin/sh
# run.sh HARNESS[,HARNESS] [args]: explore harnesses during development.
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
(cd engine && go build -o ../bin/engine .) || exit 3
f=$1; shift
exec ./bin/engine run -fn "$f" "$@"
