#!/bin/bash
# Compiles the engine once, which warms the build cache; every check builds it again.
set -e
cd "$(dirname "$0")/engine"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export HOME=${HOME:-/root}
mkdir -p ../bin
go build -o ../bin/engine .
