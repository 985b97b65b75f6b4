#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the symbolic executor if needed and decides one property for the tree in /repo.
cd "$(dirname "$0")" || exit 2
export GOSYM_VERIF="$PWD" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bin=build/gosym
if [ ! -x $bin ] || [ -n "$(find engine -name '*.go' -newer $bin -print -quit)" ]; then
	mkdir -p build
	(cd engine && go build -o "$PWD/../build/gosym.$$" .) && mv "build/gosym.$$" $bin || { echo "the executor does not build"; exit 2; }
fi
exec $bin check "$@"
