#!/bin/bash
# Warms the Go build cache: builds every check once (plain and race) and throws the binaries away.
set -u
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false"
export HOME="${HOME:-/root}"
cd "$(dirname "$0")/harness" || exit 1
go vet ./kit >/dev/null 2>&1
go build -o /dev/null ./kit || exit 1
exit 0
