#!/bin/bash
# setup.sh builds the symbolic executor.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p build && cd engine && go build -o ../build/gosym .
