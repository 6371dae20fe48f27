#!/bin/bash
# Builds all checks once, so that a mistake shows early and the build cache is warm.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
[ -d /root/go/pkg/mod ] && export GOMODCACHE=/root/go/pkg/mod
cd "$here/harness" || exit 1
go build ./... && go build -race ./...
