#!/bin/bash
# Builds the engine once, so that the checks start from a warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$here/engine" && mkdir -p .bin && go build -o .bin/gosym .
