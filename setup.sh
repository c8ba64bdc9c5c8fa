#!/bin/bash
# Build the harness once, with and without the race detector, so that compile errors show and build caches fill.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" && go build -o "$tmp/a" . && go build -race -o "$tmp/b" .
