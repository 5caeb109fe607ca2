#!/bin/bash
# Builds the checker once, to fail early when the toolchain is missing. Every check builds it again.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off
cd "$V/gosym" && GOWORK=off GOFLAGS=-mod=mod go build -o /dev/null ./cmd/gosym
z3 --version
