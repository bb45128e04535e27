#!/bin/bash
# Builds the verifier once, to see that it builds (each check builds it again).
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME="${HOME:-/root}"
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH
mkdir -p bin && cd gover && go build -o ../bin/gover .
