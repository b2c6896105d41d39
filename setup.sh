#!/bin/bash
# Builds the verifier.
cd "$(dirname "$0")" || exit 2
mkdir -p .build evidence replays
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
if [ -x .build/gover ] && [ -z "$(find gover -newer .build/gover -print -quit)" ]; then exit 0; fi
cd gover && go build -o ../.build/gover .
